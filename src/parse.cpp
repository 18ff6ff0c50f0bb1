#include "parse.h"
#include <cstdlib>
#include <cstring>

namespace lang {
namespace {
struct Bad { Verdict v; std::string why; };
[[noreturn]] void ill(const std::string &w) { throw Bad{Verdict::Ill, w}; }
[[noreturn]] void unknown(const std::string &w) { throw Bad{Verdict::Unknown, w}; }
bool idStart(unsigned char c) { return c == '_' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c >= 0x80; }
bool digit(unsigned char c) { return c >= '0' && c <= '9'; }
const char *keywords[] = { "var", "function", "return", "if", "else", "while", "do", "for", "newobject", "nil", "break", "coroutine", "yield", "resume", "is_finished", "object", "len" };
const char *ops[] = { "===", "==", "!=", "<=", ">=", "++", "--", "->", "&&", "||", "(", ")", "[", "]", "{", "}", "+", "-", "*", "/", "%", ".", ";", "=", ",", "<", ">", "!" };

void directive(const std::string &line, bool ownLine) {
    std::vector<std::string> w; std::vector<bool> quoted; size_t i = 1;
    if(!ownLine) unknown("directive after other text");
    while(i < line.size()) {
        unsigned char c = (unsigned char)line[i];
        if(c == ' ' || c == '\t' || c == '\r') { i++; continue; }
        if(c == '/' && i + 1 < line.size() && line[i + 1] == '/') break;
        if(c == '"') {
            size_t j = i + 1; while(j < line.size() && line[j] != '"') { if(line[j] == '\\') unknown("escape in a directive"); j++; }
            if(j >= line.size()) ill("unterminated string in a directive");
            w.push_back(line.substr(i + 1, j - i - 1)); quoted.push_back(true); i = j + 1; continue;
        }
        if(idStart(c)) { size_t j = i; while(j < line.size() && (idStart((unsigned char)line[j]) || digit((unsigned char)line[j]))) j++; w.push_back(line.substr(i, j - i)); quoted.push_back(false); i = j; continue; }
        if(digit(c)) { size_t j = i; while(j < line.size() && digit((unsigned char)line[j])) j++; w.push_back(line.substr(i, j - i)); quoted.push_back(false); i = j; continue; }
        ill("unknown token in a directive");
    }
    if(w.empty()) unknown("empty directive");
    if(quoted[0]) unknown("quoted directive");
    if(w[0] == "line") {
        if(w.size() != 2 && w.size() != 3) ill("parameters of #line");
        if(quoted[1]) unknown("quoted line number"); 
        for(char c : w[1]) if(!digit((unsigned char)c)) ill("bad line number");
        if(w.size() == 3 && !quoted[2]) unknown("file name without quotes");
    } else if(w[0] == "file") {
        if(w.size() != 2) ill("parameters of #file");
        if(!quoted[1]) unknown("file name without quotes");
    } else ill("unknown directive");
}
void lex(const std::string &t, std::vector<Tok> &out) {
    size_t i = 0, n = strnlen(t.c_str(), t.size()); int line = 1; size_t lineStart = 0;
    while(i < n) {
        unsigned char c = (unsigned char)t[i];
        if(c == '\n') { line++; i++; lineStart = i; continue; }
        if(c == ' ' || c == '\t' || c == '\r') { i++; continue; }
        if(c == '#') {
            bool own = true; for(size_t j = lineStart; j < i; j++) if(t[j] != ' ' && t[j] != '\t') own = false;
            size_t e = t.find('\n', i); if(e == std::string::npos || e > n) e = n;
            std::string l = t.substr(i, e - i); size_t cr = l.find('\r'); if(cr != std::string::npos && cr + 1 != l.size()) unknown("carriage return in a directive");
            directive(l, own); i = e; continue;
        }
        if(c == '/' && i + 1 < n && t[i + 1] == '/') { while(i < n && t[i] != '\n') i++; continue; }
        Tok k; k.line = line;
        if(c == '"') {
            std::string v; size_t j = i + 1;
            for(;;) {
                if(j >= n) ill("unterminated string");
                char d = t[j];
                if(d == '\n') ill("newline in a string");
                if(d == '"') break;
                if(d == '\\') {
                    if(j + 1 >= n) ill("unterminated string");
                    char x = t[j + 1];
                    if(x == '\n') ill("newline in a string");
                    if(x == 'n') v += '\n'; else if(x == 'r') v += '\r'; else if(x == 't') v += '\t'; else if(x == '"') v += '"'; else { v += '\\'; v += x; }
                    j += 2; continue;
                }
                v += d; j++;
            }
            k.k = Tok::Str; k.s = v; i = j + 1;
            if(out.size() && out.back().k == Tok::Str) out.back().s += v; else out.push_back(k);
            continue;
        }
        if(digit(c)) {
            size_t j = i; int dots = 0; while(j < n && (digit((unsigned char)t[j]) || t[j] == '.')) { dots += t[j] == '.'; j++; }
            if(j - i > 200) unknown("long number");
            if(dots > 1) ill("several points in a number");
            k.k = dots ? Tok::Flt : Tok::Int; k.s = t.substr(i, j - i); i = j; out.push_back(k); continue;
        }
        if(idStart(c)) {
            size_t j = i; while(j < n && (idStart((unsigned char)t[j]) || digit((unsigned char)t[j]))) j++;
            k.k = Tok::Id; k.s = t.substr(i, j - i); i = j;
            for(auto w : keywords) if(k.s == w) k.k = Tok::Op;
            out.push_back(k); continue;
        }
        const char *found = nullptr; for(auto o : ops) if(!t.compare(i, strlen(o), o)) { found = o; break; }
        if(!found) ill("unknown character");
        k.k = Tok::Op; k.s = found; i += strlen(found); out.push_back(k);
    }
}

struct Scope { Scope *up; bool loop = false; std::vector<std::pair<std::string, int>> vars; };
struct FuncState { Func *f = nullptr; Scope *scope = nullptr; int slots = 0; };
struct Parser {
    Program &p; const std::vector<Tok> &t; size_t i = 0; int depth = 0; Scope *root = nullptr; FuncState *fs = nullptr; Tok end;
    Parser(Program &p_, const std::vector<Tok> &t_) : p(p_), t(t_) {}
    const Tok &cur() { return i < t.size() ? t[i] : end; }
    const Tok &next() { return i + 1 < t.size() ? t[i + 1] : end; }
    bool is(const char *o) { return cur().k == Tok::Op && cur().s == o; }
    void need(const char *o) { if(!is(o)) ill(std::string("expected ") + o); i++; }
    struct Deep { Parser &q; explicit Deep(Parser &q_) : q(q_) { if(++q.depth > 35) unknown("deep"); } ~Deep() { q.depth--; } };
    bool ends() { return cur().k == Tok::End || is(")") || is("]") || is(",") || is(";"); }
    static bool builtin(const std::string &s) { return s == "coroutine" || s == "yield" || s == "resume" || s == "is_finished" || s == "object" || s == "len"; }
    static bool special(const std::string &s) { return s == "_functionId" || s == "_argumentCount" || s == "_returnPointer"; }

    // ---- names
    bool atRoot() { return fs->scope == root; }
    void declare(const std::string &name, bool &global, int &slot) {
        for(auto &v : fs->scope->vars) if(v.first == name) ill("declared twice: " + name);
        if(special(name)) unknown("variable " + name);
        global = atRoot();
        if(global) { slot = (int)p.globals.size(); p.globals.push_back(name); } else slot = fs->slots++;
        fs->scope->vars.push_back({name, slot});
    }
    void resolve(Expr *e) {
        for(Scope *s = fs->scope; s && s != root; s = s->up) for(auto &v : s->vars) if(v.first == e->s) { if(v.second < 0) { e->k = EK::Special; if(e->s == "_returnPointer") unknown("_returnPointer"); } e->slot = v.second; e->global = false; return; }
        for(auto &v : root->vars) if(v.first == e->s) { e->slot = v.second; e->global = true; return; }
        ill("undeclared: " + e->s);
    }
    // ---- expressions
    std::vector<Expr *> args() {
        std::vector<Expr *> r; need("(");
        while(!is(")")) {
            if(cur().k == Tok::End) ill("unterminated call");
            r.push_back(expr()); if(r.size() > 25) unknown("many arguments");
            if(is(",")) { i++; if(is(")")) unknown("trailing comma"); } else if(!is(")")) ill("expected , or )");
        }
        i++; return r;
    }
    bool lvalue(Expr *e) { return e->k == EK::Var || e->k == EK::Index || e->k == EK::Field; }
    // An increment anywhere within (functions are compiled on their own).
    bool hasInc(Expr *e) { if(e->k == EK::Inc) return true; for(auto k : e->kids) if(hasInc(k)) return true; return false; }
    Expr *inc(const std::string &op, bool post, Expr *x) {
        if(x->k == EK::Special) unknown("writing to a special variable");
        if(!lvalue(x)) ill("increment of something that is no variable");
        if(hasInc(x)) unknown("increment within an increment");
        Expr *e = p.ex(EK::Inc); e->op = op; e->i = post; e->kids = {x}; return e;
    }
    Expr *operand() {
        Deep d(*this);
        if(is("-") || is("!")) { std::string op = cur().s; i++; return p.eUn(op, operand()); }
        if(is("++") || is("--")) { std::string op = cur().s; i++; return inc(op, false, operand()); }
        Expr *e = nullptr;
        const Tok &k = cur();
        if(is("(")) {
            i++; if(cur().k == Tok::Op && builtin(cur().s) && !(next().k == Tok::Op && next().s == "(")) unknown("built-in in parentheses"); 
            e = expr(); need(")");
        }
        else if(is("function")) { Func *f = function(false); e = p.ex(EK::Fn); e->fn = f; }
        else if(k.k == Tok::Int) { i++; if(k.s.size() > 10 || atoll(k.s.c_str()) > 2147483648ll) unknown("large integer"); e = p.eInt((int32_t)atoll(k.s.c_str())); }
        else if(k.k == Tok::Flt) { i++; e = p.eFloat((float)atof(k.s.c_str())); }
        else if(k.k == Tok::Str) { i++; if(k.s.size() > 200) unknown("long string"); e = p.eStr(k.s); }
        else if(k.k == Tok::Id) { i++; e = p.ex(EK::Var); e->s = k.s; resolve(e); }
        else if(is("newobject")) { i++; e = p.ex(EK::NewObj); }
        else if(is("nil")) { i++; e = p.eNil(); }
        else if(k.k == Tok::Op && builtin(k.s)) {
            std::string name = k.s; i++; if(!is("(")) ill("built-in without a call");
            auto a = args(); size_t n = a.size();
            if(name == "coroutine" ? false : name == "yield" ? n > 1 : name == "resume" ? n < 1 || n > 2 : name == "object" ? n > 0 : n != 1) ill("number of arguments of " + name);
            if(name == "coroutine" && !n) unknown("coroutine of nothing");
            e = p.eBuiltin(name, a);
        } else ill("expected a value");
        for(int links = 0;; ) {
            if(++links > 30) unknown("long chain");
            if(is("[")) { i++; Expr *x = expr(); need("]"); e = p.eIndex(e, x); }
            else if(is("(")) e = p.eCall(e, args());
            else if(is(".")) { i++; if(cur().k != Tok::Id) ill("expected a field name"); e = p.eField(e, cur().s); i++; }
            else if(is("->")) { i++; if(cur().k != Tok::Id) ill("expected a method name"); std::string n = cur().s; i++; if(!is("(")) ill("expected a call after ->"); e = p.eSelf(e, n, args()); }
            else if(is("++") || is("--")) { std::string op = cur().s; i++; e = inc(op, true, e); }
            else break;
        }
        return e;
    }
    static int prec(const std::string &o) {
        if(o == "*" || o == "/" || o == "%") return 5;
        if(o == "+" || o == "-") return 6;
        if(o == "<" || o == ">" || o == "<=" || o == ">=") return 8;
        if(o == "==" || o == "!=" || o == "===") return 9;
        if(o == "&&") return 13;
        if(o == "||") return 14;
        if(o == "=") return 15;
        return -1;
    }
    Expr *binary(int level, int &chain) {
        if(level < 5) return operand();
        Expr *l = binary(level - 1, chain);
        while(cur().k == Tok::Op && prec(cur().s) == level) {
            if(++chain > 30) unknown("long expression");
            std::string op = cur().s; i++; Expr *r = binary(level - 1, chain);
            if(op == "=") { if(l->k == EK::Special) unknown("writing to a special variable"); if(!lvalue(l)) ill("assignment to something that is no variable"); l = p.eAssign(l, r); }
            else l = p.eBin(op, l, r);
        }
        return l;
    }
    Expr *expr() { Deep d(*this); if(ends()) ill("expected an expression"); int chain = 0; return binary(15, chain); }

    // ---- statements
    struct In { Parser &q; Scope s; Scope *old; In(Parser &q_, bool loop) : q(q_) { old = q.fs->scope; s.up = old; s.loop = loop; q.fs->scope = &s; } ~In() { q.fs->scope = old; } };
    std::vector<Stmt *> body() {     // a statement as a body, in a scope the caller has opened
        Stmt *s = stmt();
        if(s->k == SK::Block) return s->b1;
        return { s };
    }
    Func *function(bool named, Stmt *decl = nullptr) {
        Deep d(*this);
        need("function"); Func *f = p.fu();
        if(named) { if(cur().k != Tok::Id) ill("expected a function name"); f->name = cur().s; declare(f->name, decl->global, decl->slot); i++; }
        if(!is("(")) ill("expected ("); i++;
        FuncState *old = fs; FuncState now; now.f = f; Scope s; s.up = root; now.scope = &s; fs = &now;
        struct Back { Parser &q; FuncState *o; ~Back() { q.fs = o; } } back{*this, old};
        s.vars.push_back({"_functionId", -1});
        while(!is(")")) {
            if(cur().k != Tok::Id) ill("expected a parameter name");
            bool g; int slot; for(auto &v : s.vars) if(v.first == cur().s) ill("declared twice: " + cur().s);
            if(f->params.size() > 25) unknown("many parameters");
            declare(cur().s, g, slot); f->params.push_back(cur().s); i++;
            if(is(",")) { i++; if(is(")")) unknown("trailing comma"); } else if(!is(")")) ill("expected , or )");
        }
        s.vars.push_back({"_argumentCount", -1}); s.vars.push_back({"_returnPointer", -1});
        i++;
        f->body = body(); f->nslots = now.slots; f->endLine = cur().line;
        return f;
    }
    Stmt *stmt() {
        Deep d(*this);
        if(cur().k == Tok::End) ill("expected a statement");
        int line = cur().line; Stmt *s = nullptr;
        if(is("var")) {
            i++; s = p.st(SK::Var); if(cur().k != Tok::Id) ill("expected a name"); s->name = cur().s; i++;
            if(is("=")) { i++; s->e = expr(); }
            declare(s->name, s->global, s->slot); need(";");
        } else if(is("return")) {
            i++; s = p.st(SK::Return); s->e = expr(); if(!fs->f) ill("return outside of a function"); need(";");
        } else if(is("{")) {
            i++; s = p.st(SK::Block); In in(*this, false); while(!is("}")) { if(cur().k == Tok::End) ill("unterminated block"); s->b1.push_back(stmt()); } i++;
        } else if(is("if")) {
            i++; s = p.st(SK::If); need("("); s->e = expr(); need(")"); { In in(*this, false); s->b1 = body(); }
            if(is("else")) { i++; s->hasElse = true; In in(*this, false); s->b2 = body(); }
        } else if(is("while")) {
            i++; s = p.st(SK::While); need("("); s->e = expr(); need(")"); In l(*this, true); In in(*this, false); s->b1 = body();
        } else if(is("do")) {
            i++; s = p.st(SK::DoWhile); { In l(*this, true); In in(*this, false); s->b1 = body(); }
            need("while"); need("("); s->e = expr(); need(")"); need(";");
        } else if(is("for")) {
            i++; s = p.st(SK::For); need("("); In l(*this, true); In v(*this, false);
            s->init = stmt(); bool odd = s->init->k != SK::Var && s->init->k != SK::Expr;
            s->e = expr(); need(";"); s->e2 = expr(); need(")"); { In in(*this, false); s->b1 = body(); }
            if(odd) unknown("statement as a loop's initialisation");
        } else if(is("break")) {
            bool in = false; for(Scope *x = fs->scope; x; x = x->up) in = in || x->loop;
            i++; if(!in) ill("break outside of a loop"); need(";"); s = p.st(SK::Break);
        } else if(is("function") && next().k == Tok::Id) { s = p.st(SK::Func); s->fn = function(true, s); s->name = s->fn->name; }
        else { s = p.st(SK::Expr); s->e = expr(); need(";"); }
        s->line = s->line2 = s->endLine = line; return s;
    }
    void program() {
        Scope r; r.up = nullptr; root = &r; FuncState top; top.scope = root; fs = &top;
        for(int n = 0; n < N_COUNT; n++) r.vars.push_back({nativeNames[n], n});
        while(cur().k != Tok::End) { if(is("}")) ill("extra }"); p.top.push_back(stmt()); }
        p.rootSlots = top.slots;
    }
};
}

Parsed tokenize(const std::string &text, std::vector<Tok> &out) {
    Parsed r; try { lex(text, out); } catch(Bad &b) { r.v = b.v; r.why = b.why; } return r;
}
std::string spell(const Tok &t) { return t.k == Tok::Str ? strLiteral(t.s) : t.s; }
Parsed parse(const std::string &text, Program &p) {
    Parsed r; std::vector<Tok> toks;
    try { lex(text, toks); Parser q(p, toks); q.program(); } catch(Bad &b) { r.v = b.v; r.why = b.why; }
    return r;
}
}
