#include "lang.h"
#include "vm.h"
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <cmath>

namespace lang {

const char *nativeNames[N_COUNT] = { "out", "dump", "id", "call", "gc", "err", "sum", "tag", "box", "unbox", "rebox", "hold", "held", "drop", "str" };

Program::Program() {
    for(int n = 0; n < N_COUNT; n++) {
        Func *f = fu(); f->native = n; f->name = nativeNames[n];
        nativeFuncs.push_back(f); globals.push_back(nativeNames[n]);
    }
}

// ---------------------------------------------------------------------------
// Printing

std::string floatLiteral(float f) {
    char b[260]; snprintf(b, sizeof b, "%.149f", (double)f);
    std::string s = b;
    while(s.back() == '0' && s[s.size() - 2] != '.') s.pop_back();
    return s;
}
std::string strLiteral(const std::string &s) {
    std::string o = "\"";
    for(char c : s) {
        if(c == '\n') o += "\\n"; else if(c == '\r') o += "\\r"; else if(c == '\t') o += "\\t"; else if(c == '"') o += "\\\""; else o += c;
    }
    return o + "\"";
}

struct Printer {
    const PrintOpts &o; std::string out; int line = 1; int ind = 0;
    explicit Printer(const PrintOpts &o_) : o(o_) {}
    bool ch(uint32_t n, uint32_t d) { return o.layout && o.layout->chance(n, d); }
    void put(const std::string &s) { for(char c : s) if(c == '\n') line++; out += s; }
    // Between two tokens. need: a space is required.
    void gap(bool need) {
        if(!o.layout) { if(need) put(" "); return; }
        switch(o.layout->below(need ? 14 : 20)) {
            case 0: case 1: case 2: case 3: case 4: case 5: case 6: case 7: put(" "); break;
            case 8: put("  "); break;
            case 9: put("\t"); break;
            case 10: put(o.oneLine ? " " : "\n"); break;
            case 11: put(o.comments && !o.oneLine ? " // c;{(\"\n" : " "); break;
            case 12: put(o.comments && !o.oneLine ? "\n  //\n\t" : " "); break;
            case 13: put(o.oneLine ? " " : "\r\n"); break;
            default: break;
        }
    }
    static int prec(const std::string &op) {
        if(op == "*" || op == "/" || op == "%") return 5;
        if(op == "+" || op == "-") return 6;
        if(op == "<" || op == ">" || op == "<=" || op == ">=") return 8;
        if(op == "==" || op == "!=" || op == "===") return 9;
        if(op == "&&") return 13;
        if(op == "||") return 14;
        return 15;
    }
    // Levels: 0 postfix/primary, 1 prefix, 5.. binary, 15 assignment.
    static int level(const Expr *e) {
        switch(e->k) {
            case EK::Int: return e->i < 0 ? 1 : 0;
            case EK::Float: return std::signbit(e->f) ? 1 : 0;
            case EK::Un: return 1;
            case EK::Inc: return e->i ? 0 : 1;
            case EK::Bin: return prec(e->op);
            case EK::Assign: return 15;
            default: return 0;
        }
    }
    void tok(const std::string &s) {
        // Avoid gluing "-" "-" and "+" "+", and words to words.
        if(!out.empty()) {
            char a = out.back(), b = s[0];
            bool wa = isalnum((unsigned char)a) || a == '_' || (unsigned char)a >= 128, wb = isalnum((unsigned char)b) || b == '_' || (unsigned char)b >= 128;
            bool need = (wa && wb) || (a == '-' && (b == '-' || b == '>')) || (a == '+' && b == '+') || (a == '/' && (b == '/' || b == '*')) || (wa && b == '.') || (a == '.' && wb) || (a == '=' && b == '=') || (a == '!' && b == '=') || (a == '"' && b == '"');
            if(a == '.' || b == '.') need = false;
            if(isdigit((unsigned char)a) && b == '.') need = true;
            gap(need);
        }
        put(s);
    }
    void expr(const Expr *e, int maxLevel) {
        int l = level(e);
        bool paren = l > maxLevel;
        if(!paren && o.extraParens && ch(1, 6)) paren = true;
        if(paren) { tok("("); expr0(e); tok(")"); } else expr0(e);
    }
    void args(const Expr *e, size_t from) {
        tok("(");
        for(size_t i = from; i < e->kids.size(); i++) { if(i > from) tok(","); expr(e->kids[i], 15); }
        if(e->kids.size() > from && ch(1, 24)) tok(",");
        tok(")");
    }
    void expr0(const Expr *e) {
        switch(e->k) {
            case EK::Int:
                if(e->i < 0) { tok("-"); tok(std::to_string(-(int64_t)e->i)); } else tok(std::to_string(e->i));
                break;
            case EK::Float:
                if(std::signbit(e->f)) { tok("-"); tok(floatLiteral(-e->f)); } else tok(floatLiteral(e->f));
                break;
            case EK::Str:
                if(e->s.size() > 1 && e->s.find('\\') == std::string::npos && ch(1, 10)) { // adjacent literals
                    size_t k = 1 + o.layout->below((uint32_t)e->s.size() - 1);
                    tok(strLiteral(e->s.substr(0, k))); tok(strLiteral(e->s.substr(k)));
                } else tok(strLiteral(e->s));
                break;
            case EK::Nil: tok("nil"); break;
            case EK::NewObj: if(e->i) { tok("object"); tok("("); tok(")"); } else tok("newobject"); break;
            case EK::Var: case EK::Special: tok(e->s); break;
            case EK::Un: tok(e->op); expr(e->kids[0], 1); break;
            case EK::Bin: {
                int p = prec(e->op);
                expr(e->kids[0], p); tok(e->op); expr(e->kids[1], p - 1 < 1 ? 1 : p - 1);
                break;
            }
            case EK::Assign: expr(e->kids[0], 0); tok("="); expr(e->kids[1], 14); break;
            case EK::Inc:
                if(e->i) { expr(e->kids[0], 0); tok(e->op); }
                else { tok(e->op); expr(e->kids[0], 0); }
                break;
            case EK::Index: expr(e->kids[0], 0); tok("["); expr(e->kids[1], 15); tok("]"); break;
            case EK::Field: expr(e->kids[0], 0); tok("."); tok(e->s); break;
            case EK::Call: expr(e->kids[0], 0); args(e, 1); break;
            case EK::Self: expr(e->kids[0], 0); tok("->"); tok(e->s); args(e, 1); break;
            case EK::Builtin: tok(e->s); args(e, 0); break;
            case EK::Fn: tok("function"); funcRest(e->fn, false); break;
        }
    }
    void nl() { if(o.layout && (o.oneLine || ch(1, 8))) gap(false); else { put("\n"); for(int i = 0; i < ind; i++) put("    "); } }
    void body(const std::vector<Stmt *> &b) {
        tok("{"); ind++;
        for(auto s : b) { nl(); stmt(s); }
        ind--; nl(); put("}");
    }
    void bodyOrSingle(Stmt *owner, const std::vector<Stmt *> &b) {
        if(!owner->braces && b.size() == 1 && b[0]->k == SK::Expr) { put(" "); stmt(b[0]); }
        else body(b);
    }
    void funcRest(Func *f, bool named) {
        tok("(");
        for(size_t i = 0; i < f->params.size(); i++) { if(i) tok(","); tok(f->params[i]); }
        tok(")"); body(f->body); f->endLine = line;
    }
    void stmt(Stmt *s) {
        s->line = line;
        switch(s->k) {
            case SK::Var: put("var"); tok(s->name); if(s->e) { tok("="); expr(s->e, 15); } tok(";"); s->endLine = line; break;
            case SK::Expr: {
                // A statement must not begin with `function` (that declares one) or `{`.
                expr(s->e, 15); tok(";"); s->endLine = line; break;
            }
            case SK::Func: put("function"); tok(s->name); funcRest(s->fn, true); s->endLine = line; break;
            case SK::If:
                put("if"); tok("("); expr(s->e, 15); tok(")"); s->endLine = line; bodyOrSingle(s, s->b1);
                if(s->hasElse) { put(out.back() == '}' ? " else" : " else"); bodyOrSingle(s, s->b2); }
                break;
            case SK::While: put("while"); tok("("); expr(s->e, 15); tok(")"); s->endLine = line; bodyOrSingle(s, s->b1); break;
            case SK::DoWhile:
                put("do"); body(s->b1); put(" while"); s->line2 = line; tok("("); expr(s->e, 15); tok(")"); tok(";"); s->endLine = line; break;
            case SK::For:
                put("for"); tok("("); 
                if(s->init->k == SK::Var) { tok("var"); tok(s->init->name); if(s->init->e) { tok("="); expr(s->init->e, 15); } tok(";"); }
                else { expr(s->init->e, 15); tok(";"); }
                s->init->line = s->line; s->init->endLine = line;
                expr(s->e, 15); tok(";"); expr(s->e2, 15); tok(")"); s->endLine = line; bodyOrSingle(s, s->b1); break;
            case SK::Break: put("break"); tok(";"); s->endLine = line; break;
            case SK::Return: put("return"); 
                if(s->e) expr(s->e, 15);
                tok(";"); s->endLine = line; break;
            case SK::Block: body(s->b1); break;
        }
    }
};

std::string print(Program &p, const PrintOpts &o) {
    Printer pr(o);
    for(auto s : p.top) { pr.stmt(s); pr.nl(); }
    if(pr.out.empty() || pr.out.back() != '\n') pr.put("\n");
    return pr.out;
}
std::vector<std::string> printPieces(Program &p, const PrintOpts &o) {
    std::vector<std::string> r;
    int k = 0; for(auto s : p.top) { Printer pr(o); pr.line = 1 + o.lineBase * k++; pr.stmt(s); pr.put("\n"); r.push_back(pr.out); }
    return r;
}
std::string printExpr(const Expr *e, const PrintOpts &o) { Printer pr(o); pr.expr(e, 15); return pr.out; }

} // namespace lang
