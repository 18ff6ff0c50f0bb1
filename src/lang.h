// Programs: AST, printer, reference interpreter, generator.
#pragma once
#include "pbt.h"
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <functional>

namespace lang {

struct Func; struct Obj; struct Expr; struct Stmt;
enum class VT { Int, Float, Str, Fn, Obj, Nil };
struct Val {
    VT t = VT::Nil; int32_t i = 0; float f = 0; std::string s; Func *fn = nullptr; Obj *o = nullptr;
    static Val Int(int32_t x) { Val v; v.t = VT::Int; v.i = x; return v; }
    static Val Flt(float x) { Val v; v.t = VT::Float; v.f = x; return v; }
    static Val Str(std::string x) { Val v; v.t = VT::Str; v.s = std::move(x); return v; }
    static Val Fn(Func *x) { Val v; v.t = VT::Fn; v.fn = x; return v; }
    static Val Ob(Obj *x) { Val v; v.t = VT::Obj; v.o = x; return v; }
};

enum class EK { Int, Float, Str, Nil, Var, Special, Un, Bin, Assign, Inc, Index, Field, Call, Self, Fn, Builtin, NewObj };
// Special: s = "_argumentCount" / "_functionId".
// Un: op "-" "!"; Inc: op "++" "--", post flag in i; Index: kids ob,key; Field: kids ob, s=name;
// Call: kids callee,args...; Self: kids ob,args..., s=name; Builtin: s=name, kids=args.
struct Expr {
    EK k; int32_t i = 0; float f = 0; std::string s, op; std::vector<Expr *> kids; bool global = false; int slot = 0; Func *fn = nullptr;
};
enum class SK { Var, Func, If, While, DoWhile, For, Break, Return, Block, Expr };
// Var: e initialiser or null; For: init statement in body[0], e cond, e2 step, body in b2.
struct Stmt {
    SK k; std::string name; bool global = false; int slot = 0; Expr *e = nullptr, *e2 = nullptr;
    std::vector<Stmt *> b1, b2; bool hasElse = false; Func *fn = nullptr;
    Stmt *init = nullptr;
    int line = 0, line2 = 0, endLine = 0;   // of its own part: without bodies
    bool braces = true;   // bodies printed with braces
};
enum Native { N_NONE = -1, N_OUT, N_DUMP, N_ID, N_CALL, N_GC, N_ERR, N_SUM, N_TAG, N_BOX, N_UNBOX, N_REBOX, N_HOLD, N_HELD, N_DROP, N_STR, N_COUNT };
extern const char *nativeNames[N_COUNT];
struct Func {
    std::string name; std::vector<std::string> params; int nslots = 0; std::vector<Stmt *> body; int native = N_NONE; int endLine = 0;
};
struct Program {
    std::vector<Stmt *> top;
    std::vector<std::string> globals;         // names by slot, natives first
    std::vector<Func *> nativeFuncs;
    std::vector<std::unique_ptr<Expr>> exprs; std::vector<std::unique_ptr<Stmt>> stmts; std::vector<std::unique_ptr<Func>> funcs;
    int rootSlots = 0;                        // locals of blocks at root level
    bool wild = false;
    Program();
    Expr *ex(EK k) { exprs.emplace_back(new Expr{k}); return exprs.back().get(); }
    Stmt *st(SK k) { stmts.emplace_back(new Stmt{k}); return stmts.back().get(); }
    Func *fu() { funcs.emplace_back(new Func); return funcs.back().get(); }
    Expr *eInt(int32_t v) { Expr *e = ex(EK::Int); e->i = v; return e; }
    Expr *eFloat(float v) { Expr *e = ex(EK::Float); e->f = v; return e; }
    Expr *eStr(const std::string &v) { Expr *e = ex(EK::Str); e->s = v; return e; }
    Expr *eNil() { return ex(EK::Nil); }
    Expr *eBin(const std::string &op, Expr *a, Expr *b) { Expr *e = ex(EK::Bin); e->op = op; e->kids = {a, b}; return e; }
    Expr *eUn(const std::string &op, Expr *a) { Expr *e = ex(EK::Un); e->op = op; e->kids = {a}; return e; }
    Expr *eGlobal(int slot) { Expr *e = ex(EK::Var); e->global = true; e->slot = slot; e->s = globals[slot]; return e; }
    Expr *eNative(int n) { return eGlobal(n); }
    Expr *eAssign(Expr *l, Expr *r) { Expr *e = ex(EK::Assign); e->kids = {l, r}; return e; }
    Expr *eField(Expr *o, const std::string &n) { Expr *e = ex(EK::Field); e->kids = {o}; e->s = n; return e; }
    Expr *eIndex(Expr *o, Expr *k) { Expr *e = ex(EK::Index); e->kids = {o, k}; return e; }
    Expr *eCall(Expr *f, std::vector<Expr *> a) { Expr *e = ex(EK::Call); e->kids = std::move(a); e->kids.insert(e->kids.begin(), f); return e; }
    Expr *eSelf(Expr *o, const std::string &n, std::vector<Expr *> a) { Expr *e = ex(EK::Self); e->s = n; e->kids = std::move(a); e->kids.insert(e->kids.begin(), o); return e; }
    Expr *eBuiltin(const std::string &n, std::vector<Expr *> a) { Expr *e = ex(EK::Builtin); e->s = n; e->kids = std::move(a); return e; }
    Stmt *sExpr(Expr *e) { Stmt *s = st(SK::Expr); s->e = e; return s; }
    std::vector<std::string> userGlobals() const { return std::vector<std::string>(globals.begin() + N_COUNT, globals.end()); }
};

// ---- printing -------------------------------------------------------------
struct PrintOpts {
    pbt::Gen *layout = nullptr;   // random layout choices (null: canonical, one statement per line)
    bool extraParens = false;     // redundant parentheses around subexpressions at random
    bool comments = true;
    int lineBase = 0;             // piece number k of printPieces starts at line k * lineBase + 1
    bool oneLine = false;         // no line breaks other than where they are needed
};
std::string print(Program &p, const PrintOpts &o = PrintOpts());
// One text per top-level statement.
std::vector<std::string> printPieces(Program &p, const PrintOpts &o = PrintOpts());
std::string printExpr(const Expr *e, const PrintOpts &o = PrintOpts());
std::string floatLiteral(float f);
std::string strLiteral(const std::string &s);

// ---- reference interpreter ---------------------------------------------------
struct Model {
    // in
    uint64_t fuel = 60000;
    int maxDepth = 150;
    size_t maxLog = 150000, maxString = 3000;
    size_t maxFields = SIZE_MAX;   // per object
    // out
    std::string log; bool error = false; std::string errorText; int errorLine = 0, errorEnd = 0; std::string globals;   // range of lines
    bool discarded = false; const char *why = "";
    uint64_t steps = 0;
    std::map<std::string, uint64_t> features;
    // counters used for classification
    void run(Program &p);
    // Session use: keep the environment over several pieces.
    struct Impl; std::shared_ptr<Impl> impl;
    void begin(Program &p);
    void runTop(size_t from, size_t to);   // top[from..to)
    void clearError();                     // the session goes on; coroutines the error went through are lost
    std::string globalsNow(const std::vector<std::string> &names);
};
int32_t floatToInt(float f);

// ---- generation ----------------------------------------------------------------
struct GenOpts {
    bool wildAllowed = true;      // deliberate ill-typed operations in some programs
    bool coroutines = true, objects = true, hostCalls = true, callables = true, forceGc = true;
    uint32_t coroutineWeight = 1;
    bool nativeErrors = true;
    bool boxes = true;            // native objects that refer to values (marked by their type's callback)
    bool holds = true;            // values held by the host through handles
    bool restricted = false;      // no function-identity or host-call features
    int stmts = 12;               // top-level statements
};
void generate(Program &p, pbt::Gen &g, const GenOpts &o);
std::string randomString(pbt::Gen &g, int maxLen);

} // namespace lang
