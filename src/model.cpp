// The reference interpreter.
#include "lang.h"
#include "vm.h"
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <ucontext.h>
#include <sys/mman.h>

namespace lang {

struct RtError { std::string what; };
struct DiscardRun { const char *why; };
struct AbortCo {};

struct Key {
    VT t; int32_t i = 0; float f = 0; std::string s; const void *p = nullptr;
    bool operator<(const Key &o) const {
        if(t != o.t) return t < o.t;
        switch(t) {
            case VT::Int: return i < o.i;
            case VT::Float: return f < o.f;
            case VT::Str: return s < o.s;
            case VT::Nil: return false;
            default: return p < o.p;
        }
    }
};

struct Co;
struct Obj { std::map<Key, Val> m; Co *co = nullptr; bool isBox = false; Val boxed; };

static const size_t CO_STACK = 1u << 20;
struct StackPool {
    std::vector<void *> free_;
    void *get() {
        if(!free_.empty()) { void *p = free_.back(); free_.pop_back(); return p; }
        return mmap(nullptr, CO_STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    }
    void put(void *p) { free_.push_back(p); }
};
static StackPool pool;

struct Co {
    enum St { Created, Active, Suspended, Finished } st = Created;
    Obj *ob = nullptr; Func *fn = nullptr; Val fnVal; std::vector<Val> args;
    ucontext_t ctx, back; void *stack = nullptr; Co *parent = nullptr;
    Val transfer; bool failed = false; RtError err; const char *discard = nullptr; bool aborting = false;
    int nativeBase = 0, depth = 0;
    uint64_t savedLine = 0;
    bool hasParent = false;
};

int32_t floatToInt(float f) {
    if(f != f) return 0;
    if(f >= 2147483648.0f) return INT32_MAX;
    if(f < -2147483648.0f) return INT32_MIN;
    return (int32_t)f;
}

struct Frame { std::vector<Val> slots; Val functionId; int32_t argc = 0; Func *fn = nullptr; };

struct Model::Impl {
    Model &m; Program *p = nullptr;
    std::vector<std::unique_ptr<Obj>> objs; std::vector<std::unique_ptr<Co>> cos;
    std::vector<Val> globals; Frame root; std::map<int32_t, Val> held; int32_t nextHold = 1;
    Co *cur = nullptr; int nativeDepth = 0; int depth = 0; uint64_t curLine = 0;   // line and last line of the statement being executed
    explicit Impl(Model &mm) : m(mm) {}
    ~Impl() { cleanup(); }

    void feat(const char *n) { m.features[n]++; }
    [[noreturn]] void err(const char *w) { throw RtError{w}; }
    [[noreturn]] void discard(const char *w) { throw DiscardRun{w}; }
    void step() { if(++m.steps > m.fuel) discard("too long"); }
    Obj *newObj() { objs.emplace_back(new Obj); if(objs.size() > 20000) discard("too many objects"); return objs.back().get(); }

    // ---- conversions
    int32_t toInt(const Val &v) {
        switch(v.t) {
            case VT::Int: return v.i;
            case VT::Float: return floatToInt(v.f);
            case VT::Str: return (int32_t)atol(v.s.c_str());
            case VT::Obj: return 1;
            case VT::Nil: return 0;
            case VT::Fn: err("Cannot convert type function to an integer");
        }
        return 0;
    }
    float toFloat(const Val &v) {
        switch(v.t) {
            case VT::Int: return (float)v.i;
            case VT::Float: return v.f;
            case VT::Str: return (float)atof(v.s.c_str());
            case VT::Nil: return 0;
            default: err("Cannot convert to float");
        }
    }
    std::string toStr(const Val &v) {
        char b[64];
        switch(v.t) {
            case VT::Int: snprintf(b, sizeof b, "%d", v.i); return b;
            case VT::Float:
                if(v.f != v.f) return std::signbit(v.f) ? "-nan" : "nan";
                snprintf(b, sizeof b, "%f", v.f); return b;
            case VT::Str: return v.s;
            case VT::Nil: return "<nil:0>";
            default: discard("text of a function or object");
        }
    }
    // For < > <= >= == !=
    int compare(const Val &a, const Val &b, bool eqOnly) {
        if(a.t == VT::Nil) return b.t == VT::Nil ? 0 : 1;
        if(b.t == VT::Nil) return -1;
        switch(a.t) {
            case VT::Int: { int32_t o = toInt(b); return a.i > o ? 1 : a.i == o ? 0 : -1; }
            case VT::Float: { float o = toFloat(b); return a.f > o ? 1 : a.f == o ? 0 : -1; }
            case VT::Str: {
                std::string o = toStr(b);
                size_t i = 0;
                while(i < a.s.size() && i < o.size()) {
                    signed char x = (signed char)a.s[i], y = (signed char)o[i];
                    if(x > y) return 1;
                    if(x < y) return -1;
                    i++;
                }
                signed char x = i < a.s.size() ? (signed char)a.s[i] : 0, y = i < o.size() ? (signed char)o[i] : 0;
                return x > y ? 1 : x < y ? -1 : 0;
            }
            case VT::Fn: if(b.t == VT::Fn && a.fn == b.fn) return 0; if(!eqOnly) discard("order of functions"); return 1;
            case VT::Obj: if(b.t == VT::Obj && a.o == b.o) return 0; if(!eqOnly) discard("order of objects"); return 1;
            default: return 0;
        }
    }
    Key key(const Val &v) {
        Key k{v.t};
        switch(v.t) {
            case VT::Int: k.i = v.i; break;
            case VT::Float: if(v.f != v.f) discard("NaN as a key"); k.f = v.f; break;
            case VT::Str: k.s = v.s; break;
            case VT::Fn: k.p = v.fn; break;
            case VT::Obj: k.p = v.o; break;
            case VT::Nil: break;
        }
        return k;
    }
    static int32_t wrap(int64_t x) { return (int32_t)(uint32_t)(uint64_t)x; }
    Val binary(const std::string &op, const Val &a, const Val &b) {
        char c = op[0];
        if(op == "+" || op == "-" || op == "*" || op == "/" || op == "%") {
            if(a.t == VT::Int) {
                int32_t r = toInt(b);
                switch(c) {
                    case '+': return Val::Int(wrap((int64_t)a.i + r));
                    case '-': return Val::Int(wrap((int64_t)a.i - r));
                    case '*': return Val::Int(wrap((int64_t)a.i * r));
                    default:
                        if(r == 0 || (r == -1 && a.i == INT32_MIN)) err("division");
                        return Val::Int(c == '/' ? a.i / r : a.i % r);
                }
            }
            if(a.t == VT::Float && c != '%') {
                float r = toFloat(b);
                switch(c) { case '+': return Val::Flt(a.f + r); case '-': return Val::Flt(a.f - r); case '*': return Val::Flt(a.f * r); default: return Val::Flt(a.f / r); }
            }
            if(a.t == VT::Str && c == '+') {
                std::string r = a.s + toStr(b);
                if(r.size() > m.maxString) discard("string too long");
                return Val::Str(r);
            }
            err("operation unimplemented for type");
        }
        if(op == "&&" || op == "||") {
            // Conversion order does not matter: an error either way.
            int32_t x = toInt(b), y = toInt(a);
            return Val::Int(c == '&' ? (x && y) : (x || y));
        }
        if(op == "===") {
            if(a.t != b.t) return Val::Int(0);
            return Val::Int(compare(a, b, true) == 0);
        }
        if(op == "==") return Val::Int(compare(a, b, true) == 0);
        if(op == "!=") return Val::Int(compare(a, b, true) != 0);
        int r = compare(a, b, false);
        if(op == "<") return Val::Int(r == -1);
        if(op == ">") return Val::Int(r == 1);
        if(op == "<=") return Val::Int(r == 0 || r == -1);
        return Val::Int(r == 0 || r == 1);
    }

    // ---- text
    std::string show(const Val &v) {
        switch(v.t) {
            case VT::Int: return "int:" + std::to_string(v.i);
            case VT::Float: return "float:" + showFloat(v.f);
            case VT::Str: return "str:" + showStr(v.s);
            case VT::Fn: return "fn";
            case VT::Obj: return "obj(" + std::to_string(v.o->m.size()) + ")";
            case VT::Nil: return "nil";
        }
        return "";
    }
    struct D { std::map<Obj *, int> ids; int next = 0; };
    std::string dump(const Val &v, D &d, int depth = 0) {
        if(v.t != VT::Obj) return show(v);
        auto it = d.ids.find(v.o);
        if(it != d.ids.end()) return "#" + std::to_string(it->second);
        int me = d.next++; d.ids[v.o] = me;
        std::string o = "obj#" + std::to_string(me) + "(" + std::to_string(v.o->m.size()) + "){";
        if(depth < 6) {
            for(const auto &k : probeKeys) {
                Key kk{k.kind == 0 ? VT::Int : k.kind == 1 ? VT::Float : VT::Str};
                kk.i = k.i; kk.f = k.f; if(k.s) kk.s = k.s;
                auto e = v.o->m.find(kk);
                if(e == v.o->m.end()) continue;
                Val kv; kv.t = kk.t; kv.i = kk.i; kv.f = kk.f; kv.s = kk.s;
                Val ev = e->second;
                o += show(kv).substr(k.kind == 2 ? 4 : 0) + "=" + dump(ev, d, depth + 1) + ",";
            }
        } else o += "...";
        return o + "}";
    }
    void logLine(const std::string &s) { m.log += s; m.log += '\n'; if(m.log.size() > m.maxLog) discard("log too long"); }

    // ---- expressions
    Val getField(const Val &ob, const Val &k) {
        if(ob.t != VT::Obj) err("index into a non-object");
        auto it = ob.o->m.find(key(k));
        return it == ob.o->m.end() ? Val() : it->second;
    }
    void setField(const Val &ob, const Val &k, const Val &v) {
        if(ob.t != VT::Obj) err("index into a non-object");
        if(v.t == VT::Nil) ob.o->m.erase(key(k));
        else {
            Key kk = key(k);
            if(ob.o->m.size() >= m.maxFields && !ob.o->m.count(kk)) { feat("field limit"); err("field count limit"); }
            ob.o->m[kk] = v;
        }
    }
    Val call(Val callee, std::vector<Val> args) {
        step();
        Val original = callee;
        int hops = 0;
        while(callee.t == VT::Obj) {
            auto ex = callee.o->m.find(Key{VT::Str, 0, 0, "_exec"});
            auto da = callee.o->m.find(Key{VT::Str, 0, 0, "_data"});
            if(da != callee.o->m.end()) args.insert(args.begin(), da->second);
            if(ex == callee.o->m.end()) err("not callable");
            callee = ex->second;
            if(++hops > 8) discard("many redirections");
        }
        if(hops) feat("callable object");
        if(callee.t != VT::Fn) err("call of a non-function");
        Func *f = callee.fn;
        if(f->native >= 0) return callNative(f->native, args);
        if(args.size() != f->params.size()) err("argument count");
        if(++depth > m.maxDepth) discard("too deep");
        Frame fr; fr.slots.resize(f->nslots); fr.fn = f; fr.functionId = original; fr.argc = (int32_t)args.size();
        for(size_t i = 0; i < args.size(); i++) fr.slots[i] = args[i];
        Val ret = Val::Int(0);
        uint64_t line = curLine;
        exec(f->body, fr, ret);
        curLine = line; if(cur) cur->savedLine = line;
        depth--;
        return ret;
    }
    Val callNative(int n, std::vector<Val> &a) {
        switch(n) {
            case N_OUT: { std::string s = "out"; for(auto &v : a) s += " " + show(v); logLine(s); return Val::Int(0); }
            case N_DUMP: { std::string s = "dump"; D d; for(auto &v : a) s += " " + dump(v, d); logLine(s); return Val::Int(0); }
            case N_ID: if(a.size() != 1) err("id"); return a[0];
            case N_CALL: {
                if(a.empty()) err("call needs a function");
                if(a[0].t != VT::Fn) err("call of a non-function from the host");
                feat("host call");
                std::vector<Val> rest(a.begin() + 1, a.end());
                nativeDepth++;
                Val r = call(a[0], rest);
                nativeDepth--;
                return r;
            }
            case N_GC: return Val::Int(0);
            case N_ERR: err("raised by native code");
            case N_SUM:
                if(a.size() != 2 || a[0].t != VT::Int || a[1].t != VT::Int) err("sum arguments");
                return Val::Int(wrap((int64_t)a[0].i + a[1].i));
            case N_TAG:
                if(a.size() != 2 || a[0].t != VT::Str) err("tag arguments");
                logLine("tag " + show(a[0]) + " " + show(a[1]));
                return a[1];
            case N_BOX: {
                if(a.size() != 1) err("box arguments");
                Obj *o = newObj(); o->isBox = true; o->boxed = a[0]; feat("box");
                return Val::Ob(o);
            }
            case N_UNBOX:
                if(a.size() != 1 || a[0].t != VT::Obj || !a[0].o->isBox) err("unbox arguments");
                return a[0].o->boxed;
            case N_REBOX:
                if(a.size() != 2 || a[0].t != VT::Obj || !a[0].o->isBox) err("rebox arguments");
                a[0].o->boxed = a[1];
                return Val::Int(0);
            case N_HOLD:
                if(a.size() != 1 || a[0].t != VT::Obj) err("hold arguments");
                held[nextHold] = a[0]; feat("hold");
                return Val::Int(nextHold++);
            case N_HELD: {
                if(a.size() != 1 || a[0].t != VT::Int) err("held arguments");
                auto it = held.find(a[0].i);
                return it == held.end() ? Val() : it->second;
            }
            case N_STR: if(a.size() != 1) err("str arguments"); return Val::Str(toStr(a[0]));
            case N_DROP: {
                if(a.size() != 1 || a[0].t != VT::Int) err("drop arguments");
                return Val::Int((int32_t)held.erase(a[0].i));
            }
        }
        return Val();
    }
    Val &var(const Expr *e, Frame &fr) { return e->global ? globals[e->slot] : fr.slots[e->slot]; }

    Val assign(const Expr *l, const Val &v, Frame &fr) {
        if(l->k == EK::Var) { var(l, fr) = v; return v; }
        Val ob = eval(l->kids[0], fr);
        Val k = l->k == EK::Field ? Val::Str(l->s) : eval(l->kids[1], fr);
        setField(ob, k, v);
        return v;
    }
    Val eval(const Expr *e, Frame &fr, bool discarded = false) {
        step();
        switch(e->k) {
            case EK::Int: return Val::Int(e->i);
            case EK::Float: return Val::Flt(e->f);
            case EK::Str: return Val::Str(e->s);
            case EK::Nil: return Val();
            case EK::NewObj: return Val::Ob(newObj());
            case EK::Fn: return Val::Fn(e->fn);
            case EK::Var: return var(e, fr);
            case EK::Special: return e->s == "_functionId" ? fr.functionId : Val::Int(fr.argc);
            case EK::Un: {
                Val a = eval(e->kids[0], fr);
                if(e->op == "!") return Val::Int(!toInt(a));
                if(a.t == VT::Int) return Val::Int(wrap(-(int64_t)a.i));
                if(a.t == VT::Float) return Val::Flt(-a.f);
                err("negation");
            }
            case EK::Bin: {
                Val a = eval(e->kids[0], fr); Val b = eval(e->kids[1], fr);
                return binary(e->op, a, b);
            }
            case EK::Assign: { Val v = eval(e->kids[1], fr); return assign(e->kids[0], v, fr); }
            case EK::Inc: {
                Val v = eval(e->kids[0], fr);
                v = binary(e->op == "++" ? "+" : "-", v, Val::Int(1));
                v = assign(e->kids[0], v, fr);
                if(e->i && !discarded) v = binary(e->op == "++" ? "-" : "+", v, Val::Int(1));
                return v;
            }
            case EK::Index: { Val o = eval(e->kids[0], fr); Val k = eval(e->kids[1], fr); return getField(o, k); }
            case EK::Field: { Val o = eval(e->kids[0], fr); return getField(o, Val::Str(e->s)); }
            case EK::Call: {
                Val f = eval(e->kids[0], fr); std::vector<Val> a;
                for(size_t i = 1; i < e->kids.size(); i++) a.push_back(eval(e->kids[i], fr));
                return call(f, a);
            }
            case EK::Self: {
                Val o = eval(e->kids[0], fr);
                Val f = getField(o, Val::Str(e->s));
                std::vector<Val> a{o};
                for(size_t i = 1; i < e->kids.size(); i++) a.push_back(eval(e->kids[i], fr));
                feat("self call");
                return call(f, a);
            }
            case EK::Builtin: return builtin(e, fr);
        }
        return Val();
    }

    // ---- coroutines
    static void entry(unsigned lo, unsigned hi) {
        Co *c = (Co *)(((uintptr_t)hi << 32) | lo);
        // The interpreter is passed through the transfer pointer kept below.
        entryImpl->coMain(c);
    }
    static thread_local Impl *entryImpl;
    void coMain(Co *c) {
        try {
            depth = 1;
            Frame fr; fr.slots.resize(c->fn->nslots); fr.fn = c->fn; fr.functionId = c->fnVal; fr.argc = (int32_t)c->args.size();
            for(size_t i = 0; i < c->args.size(); i++) fr.slots[i] = c->args[i];
            Val ret = Val::Int(0);
            exec(c->fn->body, fr, ret);
            c->transfer = ret;
        } catch(RtError &e) { c->failed = true; c->err = e; }
        catch(DiscardRun &d) { c->discard = d.why; }
        catch(AbortCo &) {}
        c->st = Co::Finished;
        swapcontext(&c->ctx, &c->back);
        abort();
    }
    Val resume(Val cv, Val v) {
        if(cv.t != VT::Obj || !cv.o->co) err("resume of a non-coroutine");
        Co *c = cv.o->co;
        if(c->failed) err("resume of a coroutine stopped by an error");
        if(c->st == Co::Finished) { feat("resume of finished"); return Val(); }
        if(c->hasParent) err("recursive resume");
        feat("resume");
        Co *prev = cur; int d = depth; int nd = nativeDepth; uint64_t line = curLine;
        c->parent = prev; c->hasParent = true; cur = c;
        c->nativeBase = nativeDepth;
        if(prev) feat("nested resume");
        bool first = c->st == Co::Created;
        c->transfer = v;
        if(first) {
            c->stack = pool.get();
            getcontext(&c->ctx);
            c->ctx.uc_stack.ss_sp = c->stack; c->ctx.uc_stack.ss_size = CO_STACK; c->ctx.uc_link = nullptr;
            uintptr_t q = (uintptr_t)c;
            makecontext(&c->ctx, (void (*)())entry, 2, (unsigned)q, (unsigned)(q >> 32));
        }
        c->st = Co::Active;
        entryImpl = this;
        if(++resumeDepth > 40) discard("deep resume");
        swapcontext(&c->back, &c->ctx);
        resumeDepth--;
        cur = prev; c->hasParent = false; depth = d; nativeDepth = nd; curLine = line;
        if(c->failed) { if(failLine < 0) failLine = (int64_t)c->savedLine; throw c->err; }
        if(c->discard) discard(c->discard);
        return c->transfer;
    }
    int resumeDepth = 0; int64_t failLine = -1;
    Val yield(Val v) {
        if(!cur) err("yield from the root");
        if(nativeDepth != cur->nativeBase) err("yield out of a host call");
        Co *c = cur;
        c->st = Co::Suspended; c->transfer = v; c->depth = depth;
        uint64_t line = curLine;
        feat("yield");
        if(depth > 1) feat("yield below the coroutine's own function");
        swapcontext(&c->ctx, &c->back);
        if(c->aborting) throw AbortCo();
        depth = c->depth; curLine = line;
        // nativeDepth is that of the resumer now, and so is nativeBase.
        return c->transfer;
    }
    void cleanup() {
        for(auto &c : cos) {
            if(c->st == Co::Suspended) {
                c->aborting = true; entryImpl = this;
                swapcontext(&c->back, &c->ctx);
            }
            if(c->stack) { pool.put(c->stack); c->stack = nullptr; }
        }
        cos.clear();
    }
    Val builtin(const Expr *e, Frame &fr) {
        std::vector<Val> a;
        for(auto k : e->kids) a.push_back(eval(k, fr));
        if(e->s == "len") {
            if(a[0].t != VT::Obj) err("len of a non-object");
            return Val::Int((int32_t)a[0].o->m.size());
        }
        if(e->s == "coroutine") {
            Val f = a[0], orig = a[0]; std::vector<Val> args(a.begin() + 1, a.end());
            int hops = 0;
            while(f.t == VT::Obj) {
                auto ex = f.o->m.find(Key{VT::Str, 0, 0, "_exec"});
                auto da = f.o->m.find(Key{VT::Str, 0, 0, "_data"});
                if(da != f.o->m.end()) args.insert(args.begin(), da->second);
                if(ex == f.o->m.end()) err("not callable");
                f = ex->second;
                if(++hops > 8) discard("many redirections");
            }
            if(f.t != VT::Fn) err("coroutine of a non-function");
            if(f.fn->native >= 0) err("coroutine of a native function");
            if(args.size() != f.fn->params.size()) err("argument count");
            cos.emplace_back(new Co); Co *c = cos.back().get();
            if(cos.size() > 200) discard("many coroutines");
            c->fn = f.fn; c->fnVal = orig; c->args = args;
            Obj *o = newObj(); o->co = c; c->ob = o;
            feat("coroutine");
            return Val::Ob(o);
        }
        if(e->s == "resume") return resume(a[0], a.size() > 1 ? a[1] : Val());
        if(e->s == "yield") return yield(a.size() ? a[0] : Val());
        if(e->s == "is_finished") {
            if(a[0].t != VT::Obj || !a[0].o->co) err("is_finished of a non-coroutine");
            return Val::Int(a[0].o->co->st == Co::Finished && !a[0].o->co->failed);
        }
        discard("unknown builtin");
    }

    // ---- statements
    enum Flow { Next, Brk, Ret };
    void mark(int first, int last) { uint64_t line = (uint32_t)first | (uint64_t)(uint32_t)last << 32; curLine = line; if(cur) cur->savedLine = line; }
    Flow exec(const std::vector<Stmt *> &b, Frame &fr, Val &ret) {
        for(auto s : b) { Flow f = exec1(s, fr, ret); if(f != Next) return f; }
        return Next;
    }
    Flow exec1(Stmt *s, Frame &fr, Val &ret) {
        step();
        mark(s->line, s->endLine);
        switch(s->k) {
            case SK::Var: {
                Val v = s->e ? eval(s->e, fr) : Val::Int(0);
                (s->global ? globals[s->slot] : fr.slots[s->slot]) = v;
                return Next;
            }
            case SK::Func: (s->global ? globals[s->slot] : fr.slots[s->slot]) = Val::Fn(s->fn); return Next;
            case SK::Expr: eval(s->e, fr, true); return Next;
            case SK::If:
                if(toInt(eval(s->e, fr))) return exec(s->b1, fr, ret);
                if(s->hasElse) return exec(s->b2, fr, ret);
                return Next;
            case SK::While:
                for(;;) {
                    mark(s->line, s->endLine);
                    if(!toInt(eval(s->e, fr))) return Next;
                    Flow f = exec(s->b1, fr, ret);
                    if(f == Brk) return Next;
                    if(f == Ret) return f;
                    step();
                }
            case SK::DoWhile:
                for(;;) {
                    Flow f = exec(s->b1, fr, ret);
                    if(f == Brk) return Next;
                    if(f == Ret) return f;
                    mark(s->line2 ? s->line2 : s->line, s->endLine);
                    if(!toInt(eval(s->e, fr))) return Next;
                    step();
                }
            case SK::For:
                exec1(s->init, fr, ret);
                for(;;) {
                    mark(s->line, s->endLine);
                    if(!toInt(eval(s->e, fr))) return Next;
                    Flow f = exec(s->b1, fr, ret);
                    if(f == Brk) return Next;
                    if(f == Ret) return f;
                    mark(s->line, s->endLine);
                    eval(s->e2, fr, true);
                    step();
                }
            case SK::Break: return Brk;
            case SK::Return: ret = eval(s->e, fr); return Ret;
            case SK::Block: return exec(s->b1, fr, ret);
        }
        return Next;
    }
    std::string dumpGlobals(const std::vector<std::string> &names) {
        std::string o; D d;
        for(auto &n : names) {
            int slot = -1;
            for(size_t i = 0; i < p->globals.size(); i++) if(p->globals[i] == n) { slot = (int)i; break; }
            o += n + " = " + dump(globals[slot], d) + "\n";
        }
        return o;
    }
};
thread_local Model::Impl *Model::Impl::entryImpl = nullptr;

void Model::begin(Program &p) {
    log.clear(); error = false; discarded = false; steps = 0; features.clear(); errorLine = 0;
    impl = std::make_shared<Impl>(*this);
    impl->p = &p;
    impl->globals.assign(p.globals.size(), Val::Int(0));
    for(int n = 0; n < N_COUNT; n++) impl->globals[n] = Val::Fn(p.nativeFuncs[n]);
    impl->root.slots.resize(p.rootSlots);
}
void Model::runTop(size_t from, size_t to) {
    Impl &im = *impl;
    if(im.globals.size() < im.p->globals.size()) im.globals.resize(im.p->globals.size(), Val::Int(0));
    if((int)im.root.slots.size() < im.p->rootSlots) im.root.slots.resize(im.p->rootSlots);
    try {
        Val r;
        for(size_t i = from; i < to && i < im.p->top.size(); i++) im.exec1(im.p->top[i], im.root, r);
    } catch(RtError &e) { error = true; errorText = e.what; uint64_t l = im.failLine >= 0 ? (uint64_t)im.failLine : im.curLine; errorLine = (int)(uint32_t)l; errorEnd = (int)(l >> 32); }
    catch(DiscardRun &d) { discarded = true; why = d.why; }
}
void Model::clearError() {
    Impl &im = *impl;
    error = false; errorText.clear(); errorLine = errorEnd = 0;
    im.failLine = -1; im.cur = nullptr; im.depth = im.nativeDepth = 0; im.curLine = 0;
}
std::string Model::globalsNow(const std::vector<std::string> &names) { return impl->dumpGlobals(names); }
void Model::run(Program &p) {
    begin(p);
    runTop(0, p.top.size());
    if(!discarded) {
        try { globals = impl->dumpGlobals(p.userGlobals()); } catch(DiscardRun &d) { discarded = true; why = d.why; }
    }
    impl->cleanup();
}

} // namespace lang
