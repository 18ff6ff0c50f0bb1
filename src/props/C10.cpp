// C10: any text offered as a script is compiled or rejected safely.
#include "drive.h"
#include "parse.h"
#include <cstring>
#include <ctime>
using namespace lang;

namespace {
const std::vector<const char *> words{"var", "function", "return", "if", "else", "while", "do", "for", "newobject", "nil", "break", "coroutine", "yield", "resume", "is_finished", "object", "len",
    "===", "==", "!=", "<=", ">=", "++", "--", "->", "&&", "||", "(", ")", "[", "]", "{", "}", "+", "-", "*", "/", "%", ".", ";", "=", ",", "<", ">", "!",
    "out", "id", "call", "a", "b", "c", "self", "_argumentCount", "_functionId", "0", "1", "2", "3.5", "\"s\"", "\"\""};
const std::vector<const char *> odd{"@", "$", "`", "?", "&", "|", "^", "~", ":", "\\", "'", "\"", "#", "#line 3\n", "#file \"x\"\n", "#bad\n", "#line\n", "#line x\n", "#line 1 \"x\" 2\n", "\n#line 12 \"f.nks\"\n", "\n#file \"f.nks\" \"g\"\n", "\n#\n", "\n#error out(1);\n", "\n#line 5 \"abc\n", "\n#line -1\n", "\n#line 99999999999999999999\n", "1.2.3", "1..2", "1.", ".5", "0x10", "1e5", "123abc", "99999999999", "2147483648", "\x80\xff", "\x01", "\x7f", "/*", "*/", "//", "// x\n", "\r", "\t", "\"\\\"", "\"\\", "\"a\nb\"", "\"\\q\"", "= =", "+ +", "- >", "continue", "null", "true", "_returnPointer"};

std::string joined(pbt::Gen &g, const std::vector<std::string> &t) {
    std::string r; bool wide = g.chance(1, 2);
    for(size_t i = 0; i < t.size(); i++) { r += t[i]; if(t[i].size() && t[i].back() != '\n') r += g.chance(1, 8) ? "\n" : wide || g.chance(3, 4) ? " " : ""; }
    return r;
}
char classOf(const std::string &w) {
    if(w.empty()) return 'x';
    unsigned char c = (unsigned char)w[0];
    if(c >= '0' && c <= '9') return 'v';
    if(c == '"' || w == "nil" || w == "newobject") return 'v';
    if(w == "+" || w == "-" || w == "*" || w == "/" || w == "%" || w == "<" || w == ">" || w == "<=" || w == ">=" || w == "==" || w == "!=" || w == "===" || w == "&&" || w == "||") return 'b';
    if(w == "." || w == "->") return 'd';
    if(w == "++" || w == "--") return 'i';
    if(w == "yield" || w == "resume" || w == "is_finished" || w == "len" || w == "coroutine" || w == "object") return 'f';
    for(auto k : {"var", "function", "return", "if", "else", "while", "do", "for"}) if(w == k) return 'k';
    if(w == "break") return 'k';
    return (c == '_' || isalpha(c) || c >= 0x80) ? 'n' : 'k';
}
// A string as it may be written, escapes of all kinds in it, mostly closed.
std::string rawString(pbt::Gen &g) {
    static const std::vector<const char *> bits{"a", "b c", "\\\\", "\\n", "\\\"", "\\t", "\\r", "\\q", "\\0", "\\\\\\\"", "//", "#", "'", ";", ")", "\x80", "\t", "1", "\\\\n", "\\/"};
    std::string r = "\""; for(int i = 0, n = g.below(6); i < n; i++) r += g.pick(bits);
    if(g.chance(1, 3)) r += "\\\\";
    if(g.chance(1, 200)) r += "\\";
    if(!g.chance(1, 200)) r += "\"";
    return r;
}
// Edits of a token list.
void edit(pbt::Gen &g, std::vector<std::string> &t) {
    if(t.empty()) { t.push_back(g.pick(words)); return; }
    uint32_t n = (uint32_t)t.size(), i = g.below(n);
    auto anyWord = [&]() -> std::string { return g.chance(1, 20) ? rawString(g) : g.chance(1, 8) ? g.pick(odd) : g.chance(1, 3) ? t[g.below(n)] : std::string(g.pick(words)); };
    switch(g.below(22)) {
        case 0: t.erase(t.begin() + i); break;
        case 1: t.insert(t.begin() + i, t[i]); break;
        case 2: if(i + 1 < n) std::swap(t[i], t[i + 1]); break;
        case 3: t[i] = anyWord(); break;
        case 4: t.insert(t.begin() + i, anyWord()); break;
        case 5: { uint32_t k = 1 + g.below(std::min<uint32_t>(8, n - i)); t.erase(t.begin() + i, t.begin() + i + k); break; }
        case 6: { uint32_t k = 1 + g.below(std::min<uint32_t>(8, n - i)); std::vector<std::string> run(t.begin() + i, t.begin() + i + k); t.insert(t.begin() + g.below(n + 1), run.begin(), run.end()); break; }
        case 7: if(g.chance(1, 3)) t.resize(i); break;
        case 8: t.insert(t.begin() + i, g.pick(odd)); break;
        // another of the same class: mostly still a program, and a different one
        case 9: case 10: case 11: case 12: case 13: case 14: case 15: case 16: case 17: case 18: case 19: {
            char k = classOf(t[i]); std::vector<std::string> c; for(uint32_t j = 0; j < (k == 'n' ? i : n); j++) if(classOf(t[j]) == k) c.push_back(t[j]); if(k != 'n') for(auto w : words) if(classOf(w) == k) c.push_back(w);
            if(c.size()) t[i] = c[g.below((uint32_t)c.size())];
            break;
        }
        default: { // parentheses around something, or a block
            uint32_t k = 1 + g.below(std::min<uint32_t>(6, n - i)); bool b = g.chance(1, 3); t.insert(t.begin() + i + k, b ? "}" : ")"); t.insert(t.begin() + i, b ? "{" : "("); }
    }
}
std::string rep(const char *s, uint32_t n) { std::string r; r.reserve(strlen(s) * n); for(uint32_t i = 0; i < n; i++) r += s; return r; }
std::string nested(pbt::Gen &g) {
    uint32_t n = g.chance(1, 2) ? g.below(400) : g.chance(2, 3) ? g.below(5000) : g.below(100000); bool close = g.chance(2, 3); uint32_t m = close ? (g.chance(1, 4) ? g.below(n + 2) : n) : 0;
    switch(g.below(22)) {
        case 0: return "out(" + rep("(", n) + "1" + rep(")", m) + ");";
        case 1: return rep("{", n) + "out(1);" + rep("}", m);
        case 2: return rep("if(1) ", n) + "out(1);";
        case 3: return rep("while(1) { break; ", n) + rep("}", m);
        case 4: return "var f = " + rep("function() { return ", n) + "1" + rep("; }", m) + ";";
        case 5: return "var a; a" + rep("[a", n) + rep("]", m) + " = 1;";
        case 6: return "var a; a" + rep(".x", n) + " = 1;";
        case 7: return "var a; a" + rep("->f()", n) + ";";
        case 8: return "out(" + rep("- ", n) + "1);";
        case 9: return "out(" + rep("!", n) + "1);";
        case 10: return "out(1" + rep("+1", n) + ");";
        case 11: return "var a; out(a" + rep("=a", n) + ");";
        case 12: return "out(" + rep("\"x\" ", n) + ");";
        case 13: return "id(" + rep("id(", n) + "1" + rep(")", m) + ");";
        case 14: return "out(" + rep("1,", n) + "1);";
        case 15: return "function f(" + [&] { std::string r; for(uint32_t i = 0; i < n % 3000; i++) r += (i ? ",p" : "p") + std::to_string(i); return r; }() + ") { return 1; } out(f(1));";
        case 16: return "var a; " + rep("++", n) + "a;";
        case 17: return "var a; a" + rep("++", n) + ";";
        case 18: return rep("else ", n) + "out(1);";
        case 19: return [&] { std::string r; uint32_t k = n % 3000; for(uint32_t i = 0; i < k; i++) r += "var g" + std::to_string(i) + " = " + std::to_string(i) + ";\n"; return r + "out(g" + std::to_string(k / 2) + ");"; }();
        case 20: return rep("do ", n) + "out(1);" + rep(" while(0);", m);
        default: return rep("for(var i = 0; i < 1; i++) ", n) + "out(1);";
    }
}
std::string bytes(pbt::Gen &g, std::string t) {
    int k = 1 + g.below(6);
    for(int j = 0; j < k; j++) {
        uint32_t n = (uint32_t)t.size(), i = n ? g.below(n) : 0;
        switch(g.below(7)) {
            case 0: if(n) t[i] = (char)g.below(256); break;
            case 1: if(n) t.erase(i, 1 + g.below(4)); break;
            case 2: t.insert(i, 1, (char)g.below(256)); break;
            case 3: t.insert(i, g.chance(1, 2) ? g.pick(odd) : g.pick(words)); break;
            case 4: if(n) t.insert(g.below(n), t.substr(i, 1 + g.below(30))); break;
            case 5: if(n && g.chance(1, 3)) t.resize(i); break;
            default: if(n) t[i] = "(){}[];,.\"\n#/=+-0x"[g.below(19)];
        }
    }
    return t;
}
std::string templ(pbt::Gen &g) {
    static const std::vector<const char *> forms{"X;", "var X = X;", "a = X;", "a.b = X;", "out(X);", "if(X) X;", "if(X) { X; } else { X; }", "while(X) { X; break; }", "for(var i = 0; i < 2; X) { out(i); }", "function f(a, b) { X; return X; } out(f(X, X));", "out(X, X, X);", "var g = function(X) { return X; };", "do { X; } while(X);", "{ X; X; }", "return X;", "break;", "a[X] = X;", "a X X;", "X X X;", "out(X X X);"};
    std::string f = std::string(g.pick(forms)), r = "var a = newobject; var b = 1; var c = \"t\";\n"; 
    for(char ch : f) { if(ch == 'X') { int n = g.chance(2, 3) ? 1 : 1 + g.below(4); for(int k = 0; k < n; k++) { r += g.chance(1, 15) ? rawString(g) : g.chance(1, 20) ? g.pick(odd) : g.pick(words); r += " "; } } else r += ch; }
    return r;
}
// Nothing may run once an error is reported.
void refuseToRun(pbt::Case &c, Host &h) {
    bool again = c.g.chance(1, 4);
    if(again) { nkxCompilerCompileScript(h.cs, "out(77);", "again.nks"); }
    h.finalize(); h.run(1000);
    if(h.log.size()) c.failStr("a script with errors was run: " + h.log.substr(0, 300) + "\nreported: " + h.errorText());
    if(!h.hasErrors()) c.fail("the errors are gone");
}
}

int main(int argc, char **argv) {
    pbt::Property P;
    P.id = "C10";
    P.rule = "Texts: random well-formed programs with 0 to 5 token edits (delete, repeat, swap, replace by another of the same class, insert, move, truncate, parenthesise; any token spacing), byte edits, statement templates filled with random tokens, token soup, random bytes, and nesting or chaining of every construct up to 100000 levels, closed or not. An independent reader of the language (lexer, grammar, scopes) decides whether the text is a script: if not, errors must be reported and nothing may run, now or later; if so, it must compile, and the reference interpreter of what was read must agree with what it does; on a few forms nothing is said. Everything runs under ASan/UBSan with small stacks of limits, must end within a CPU bound and give all memory back. Non-trivial: the reader gave a verdict on an edited text, or the nesting was over 250; distinct by text.";
    P.assumptions = {"the grammar and scope rules of the independent reader were read from the code and documentation", "no verdict on: trailing commas, directives not on a line of their own, _returnPointer, increments within increments, texts nested more than 35 levels deep"};
    P.quickCases = 150000; P.thoroughCases = 4000000; P.quickWall = 28; P.thoroughWall = 800;
    P.run = [](pbt::Case &c) {
        std::string text; int edits = 0; bool deep = false; const char *kind; pbt::Gen &g = c.g;
        uint32_t w = g.below(20);
        if(w < 11) {
            GenProgram gp; GenOpts o; o.stmts = 1 + c.size / 12; o.coroutines = g.chance(1, 2); generate(gp.p, g, o); text = print(gp.p); kind = "edited programs";
            if(w < 8) {
                std::vector<Tok> toks; Parsed r = tokenize(text, toks); if(r.v != Verdict::Ok) c.failStr("harness: cannot read a printed program: " + r.why);
                size_t k = 3; std::vector<std::string> sp; bool skipMk = g.chance(3, 4); (void)k; (void)skipMk;
                for(auto &t : toks) sp.push_back(t.k == Tok::Str && g.chance(1, 6) ? rawString(g) : spell(t));
                edits = g.chance(2, 3) ? g.below(3) : g.below(6); for(int i = 0; i < edits; i++) edit(g, sp);
                text = joined(g, sp);
            } else { text = bytes(g, text); edits = 1; kind = "programs with edited bytes"; }
        } else if(w < 15) { text = templ(g); edits = 1; kind = "filled templates"; }
        else if(w < 17) { int n = g.below(40); for(int i = 0; i < n; i++) { text += g.chance(1, 12) ? g.pick(odd) : g.pick(words); text += g.chance(1, 6) ? "\n" : " "; } edits = 1; kind = "token soup"; }
        else if(w < 19) { text = nested(g); deep = true; kind = "nesting"; }
        else { int n = g.below(200); for(int i = 0; i < n; i++) text += (char)(g.chance(1, 2) ? 32 + g.below(95) : 1 + g.below(255)); edits = 1; kind = "random bytes"; }
        text = text.c_str();    // the library sees it up to the first NUL
        c.describe(text.size() > 6000 ? text.substr(0, 6000) + " ... (" + std::to_string(text.size()) + " bytes)" : text);
        c.label(kind);
        Program p; Parsed r; if(text.size() < 20000) r = parse(text, p); else r.v = Verdict::Unknown;
        c.appendDescription(std::string("\n--- reader: ") + (r.v == Verdict::Ok ? "a script" : r.v == Verdict::Ill ? "not a script: " : "no verdict: ") + r.why);
        Host h; struct timespec t0, t1; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t0);
        Model m; bool compare = false;
        if(r.v == Verdict::Ok) { m.fuel = 5000; m.run(p); compare = !m.discarded; c.label(compare ? "scripts compared with the reference interpreter" : "scripts not compared (discarded by the model)"); }
        if(!h.create()) c.fail("creating the VM failed");
        if(!compare) {
            if(g.chance(1, 2)) nkxSetMaxAllocatedMemory(h.vm, 300000 + g.below(8000000));
            if(g.chance(1, 2)) nkxSetMaxStackSize(h.vm, 16 + g.below(5000));
            if(g.chance(1, 2)) nkxSetMaxFieldsPerObject(h.vm, 4 + g.below(100));
            if(g.chance(1, 2)) nkxSetRemainingInstructionLimit(h.vm, g.below(50000));
        }
        bool ok = nkxCompilerCompileScript(h.cs, text.c_str(), "any.nks");
        if(!ok && !h.hasErrors()) c.fail("compiling failed, but no errors are reported");
        if(r.v == Verdict::Ill) {
            if(!h.hasErrors()) { h.finalize(); h.run(1000); c.failStr("this is not a script (" + r.why + "), but it was accepted and ran: " + h.log.substr(0, 200)); }
            refuseToRun(c, h); c.label("not scripts");
        } else if(compare) {
            if(h.hasErrors()) c.failStr("this is a script, but it was refused: " + h.errorText());
            h.finalize(); if(!h.run()) c.failStr("the program did not end");
            compareWithModel(c, h, m, p);
        } else {
            bool bad = h.hasErrors();
            if(bad) refuseToRun(c, h);
            else { h.finalize(); h.run(60000); if(g.chance(1, 2)) nkxVmGarbageCollect(h.vm); }
            c.label(bad ? "no verdict: rejected" : "no verdict: compiled");
        }
        clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t1);
        double cpu = (double)(t1.tv_sec - t0.tv_sec) + (double)(t1.tv_nsec - t0.tv_nsec) * 1e-9;
        if(cpu > 6) c.fail("took %.1f s of CPU time for %zu bytes", cpu, text.size());
        if((r.v != Verdict::Unknown && edits) || (deep && text.size() > 500)) c.nontrivial(pbt::hashStr(text));
        finish(c, h);
    };
    return pbt::main(P, argc, argv);
}
