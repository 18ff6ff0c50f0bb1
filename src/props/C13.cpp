// C13: constant folding, parentheses, variables and layout never change a result.
#include "drive.h"
#include <sstream>
#include <algorithm>
using namespace lang;

namespace {
struct Node { std::string op, lit; std::vector<Node *> k; bool lifted = false; };
struct Gen13 {
    pbt::Gen &g; std::vector<std::unique_ptr<Node>> all; bool mixed;
    explicit Gen13(pbt::Gen &gg) : g(gg) { mixed = g.chance(1, 4); }
    Node *mk(const std::string &op, std::vector<Node *> k) { all.emplace_back(new Node{op, "", k}); return all.back().get(); }
    Node *lit(const std::string &s) { all.emplace_back(new Node{"", s, {}}); return all.back().get(); }
    std::string digits(int n) { std::string s; for(int i = 0; i < n; i++) s += (char)('0' + g.below(10)); return s; }
    std::string floatLit() {
        switch(g.below(9)) {
            case 0: return std::to_string(g.below(10)) + "." + std::to_string(g.below(10));
            case 1: return "0.0";
            case 2: return "0." + std::string(g.below(46), '0') + digits(1 + g.below(9));
            case 3: return digits(1 + g.below(39)) + "." + digits(1 + g.below(20));
            case 4: return floatLiteral(g.flt() < 0 ? 1.5f : 0.1f);
            case 5: { float f = g.flt(); return floatLiteral(f < 0 ? -f : f); }
            case 6: return digits(1 + g.below(5)) + "." + digits(1 + g.below(12));
            case 7: return std::to_string(16777210 + g.below(12)) + ".5";
            default: return std::to_string(g.below(3)) + "." + digits(1 + g.below(3));
        }
    }
    std::string intLit() {
        switch(g.below(9)) {
            case 0: return std::to_string(2147483640u + g.below(8));
            case 1: return "0";
            case 2: return std::to_string(g.bits() & 0x7fffffff);
            case 3: return std::to_string(1u << g.below(31));
            case 4: return g.chance(1, 4) ? digits(9 + g.below(14)) : g.chance(1, 2) ? std::to_string(g.bits()) : "007";
            case 5: return std::to_string(46340 + g.below(3));
            default: return std::to_string(g.below(12));
        }
    }
    Node *leaf(int want) {
        if(want == 2 || g.chance(1, 30)) { static const std::vector<std::string> s{"\"\"", "\"a\"", "\"12\"", "\"3.5x\"", "\"-7\"", "\"x\" \"y\"", "\"\\n\\\"\"", "\"1e3\""}; return lit(g.pick(s)); }
        if(g.chance(1, 60)) return lit("nil");
        return lit(want == 1 ? floatLit() : intLit());
    }
    // want: 0 int 1 float 2 string: the type of the leftmost operand, and so mostly of the result.
    Node *expr(int want, int d) {
        if(d <= 0 || g.chance(1, 6)) return leaf(want);
        int other = mixed ? (int)g.below(3) : g.chance(1, 3) ? (int)g.below(2) : want;
        switch(g.weighted({want == 2 ? 0u : 3u, 12, 2, 2, 1, 1})) {
            case 0: return mk("u-", {expr(want, d - 1)});
            case 1: {
                static const std::vector<std::string> ar{"+", "-", "*", "/", "+", "-", "*", "/", "%"};
                std::string op = want == 2 && !g.chance(1, 12) ? "+" : g.pick(ar);
                if(op == "%" && want == 1 && !g.chance(1, 8)) op = "/";     // not for floats: an error, with literals as well
                return mk(op, {expr(want, d - 1), expr(want == 2 ? (int)g.below(3) : other, d - 1)}); }
            case 2: { static const std::vector<std::string> cm{"<", ">", "<=", ">=", "==", "!=", "==="}; int t = want == 0 ? (int)g.below(3) : other; return mk(g.pick(cm), {expr(t, d - 1), expr(g.chance(1, 5) ? (int)g.below(3) : t, d - 1)}); }
            case 3: return mk(g.chance(1, 2) ? "&&" : "||", {expr(0, d - 1), expr((int)g.below(2), d - 1)});
            case 4: return mk("u!", {expr((int)g.below(2), d - 1)});
            default: return mk("id", {expr(want, d - 1)});
        }
    }
    static int prec(const std::string &op) {
        if(op == "*" || op == "/" || op == "%") return 5;
        if(op == "+" || op == "-") return 6;
        if(op == "<" || op == ">" || op == "<=" || op == ">=") return 8;
        if(op == "==" || op == "!=" || op == "===") return 9;
        if(op == "&&") return 13;
        return 14;
    }
    int vars = 0; std::string decls;
    std::string var(const std::string &init) { std::string n = "l" + std::to_string(vars++); decls += "var " + n + " = " + init + ";\n"; return n; }
    // literalsIn: chance /8 that a literal goes into a variable; lift: chance /16 that a subexpression does; extra: parentheses.
    std::string show(Node *n, int limit, int literalsIn, int lift, bool extra, bool sp, bool here = false) {
        std::string s;
        if(n->op.empty()) { s = n->lit; if(literalsIn >= 8 || (literalsIn && (int)g.below(8) < literalsIn)) s = var(s); }
        else if(lift && !here && (int)g.below(16) < lift) s = var(show(n, 99, literalsIn, lift, extra, sp, true));
        else if(n->op == "id") s = "id(" + show(n->k[0], 99, literalsIn, lift, extra, sp) + ")";
        else if(n->op[0] == 'u') { s = n->op.substr(1) + std::string(sp && g.chance(1, 2) ? " " : "") + show(n->k[0], 2, literalsIn, lift, extra, sp); if(s.size() > 1 && s[0] == '-' && s[1] == '-') s = "- " + s.substr(1); }
        else {
            int p = prec(n->op); std::string b = sp ? (g.chance(1, 2) ? " " : g.chance(1, 3) ? "\n\t" : "") : "";
            std::string l = show(n->k[0], p, literalsIn, lift, extra, sp), r = show(n->k[1], p - 1, literalsIn, lift, extra, sp);
            s = l + b + n->op + (n->op == "-" && r[0] == '-' ? " " : b) + r;
            if(p > limit) s = "(" + s + ")";
        }
        if(extra && g.chance(1, 4)) s = (g.chance(1, 5) ? "( (" : "(") + s + (g.chance(1, 5) ? " )" : ")"), balance(s);
        return s;
    }
    static void balance(std::string &s) { int d = 0; bool q = false; for(size_t i = 0; i < s.size(); i++) { if(q) { if(s[i] == '\\') i++; else if(s[i] == '"') q = false; } else if(s[i] == '"') q = true; else if(s[i] == '(') d++; else if(s[i] == ')') d--; } while(d-- > 0) s += ")"; }
};
std::string kinds(const std::string &t) { // messages without position
    std::istringstream in(t); std::string l, o;
    while(std::getline(in, l)) { size_t a = l.find(": "); o += (a == std::string::npos ? l : l.substr(a + 2)) + "\n"; }
    return o;
}
Outcome runText(pbt::Case &c, const std::string &text, const std::vector<std::string> &names) {
    Host h; prepare(c, h, text);
    h.run(RUN_CAP);
    Outcome o = outcomeOf(h, names);
    finish(c, h);
    return o;
}
}

int main(int argc, char **argv) {
    pbt::Property P;
    P.id = "C13";
    P.rule = "Either 1-4 random expressions over literals (integers up to and beyond 32 bits, floats of up to 46 decimals, strings, all operators) used in different places (arguments, initialisers, conditions, indices, return values), written with all literals in place, with every literal in a variable, and with random literals and subexpressions in variables, redundant parentheses and white space: same host calls, same messages (with subexpressions moved: the same failure or not). Or a random general program printed plainly and in random layouts with redundant parentheses and comments. Non-trivial: an expression with at least 3 operators, or a program making 3 host calls; distinct by text.";
    P.assumptions = {"the message may differ when a failing subexpression is moved in front of another failing one"};
    P.quickCases = 38000; P.thoroughCases = 1500000; P.quickWall = 28; P.thoroughWall = 800;
    P.run = [](pbt::Case &c) {
        if(c.g.chance(1, 4)) {
            GenOpts o; o.stmts = 2 + c.size / 5; o.coroutines = c.g.chance(1, 3);
            GenProgram gp; makeProgram(c, gp, o);
            Outcome ref = runText(c, gp.text, gp.names);
            for(int r = 0; r < 2; r++) {
                PrintOpts po; po.layout = &c.g; po.extraParens = r == 0 || c.g.chance(1, 2); po.oneLine = c.g.chance(1, 4); po.comments = c.g.chance(3, 4);
                std::string t = print(gp.p, po); c.describe(gp.text + "\n--- in another layout:\n" + t);
                Outcome a = runText(c, t, gp.names);
                if(a.errors != ref.errors) { a.errors = kinds(a.errors); Outcome b = ref; b.errors = kinds(ref.errors); compareOutcome(c, "in another layout", b, a); }
                compareOutcome(c, "in another layout", [&] { Outcome b = ref; b.errors = a.errors; return b; }(), a);
                c.evaluations(1);
            }
            c.label("general program");
            if(std::count(ref.log.begin(), ref.log.end(), '\n') >= 3) c.nontrivial(pbt::hashStr(gp.text));
            return;
        }
        Gen13 G(c.g); int n = 1 + c.g.below(4), ops = 0; std::vector<Node *> es; std::vector<int> place;
        for(int i = 0; i < n; i++) { es.push_back(G.expr((int)c.g.weighted({4, 4, 1}), 1 + c.g.below(2 + c.size / 25))); place.push_back(c.g.below(8)); }
        for(auto &x : G.all) ops += x->op.size() ? 1 : 0;
        struct V { int lits, lift; bool extra, sp; const char *what; };
        auto build = [&](const V &v) {
            std::string body; G.vars = 0; G.decls = "";
            for(int i = 0; i < n; i++) {
                std::string pre = std::to_string(i);
                // Variables for this expression are declared right before it, so that failures come in the same order.
                G.decls = ""; std::string e = G.show(es[i], 99, v.lits, v.lift, v.extra, v.sp); std::string d = G.decls;
                switch(place[i]) {
                    case 0: body += d + "var r" + pre + " = " + e + "; out(r" + pre + ");\n"; break;
                    case 1: body += d + "if(" + e + ") { out(\"yes\"); } else { out(\"no\"); }\n"; break;
                    case 2: body += d + "var o" + pre + " = object(); o" + pre + "[" + e + "] = 5; dump(o" + pre + "[" + e + "]); out(len(o" + pre + "));\n"; break;
                    case 3: body += d + "function f" + pre + "() { return " + e + "; }\nout(f" + pre + "());\n"; break;
                    case 4: body += d + "{ var q = 1; q = " + e + "; out(q, q === (" + e + ")); }\n"; break;
                    case 5: body += d + "var w" + pre + " = 0; while(" + e + ") { out(\"in\"); break; }\nfor(var k" + pre + " = " + e + "; w" + pre + " < 2; w" + pre + " = w" + pre + " + 1) { out(k" + pre + "); }\n"; break;
                    default: body += d + "out(" + e + ");\n";
                }
            }
            return body + "out(\"end\");\n";
        };
        V vs[] = { {0, 0, false, false, "literals"}, {8, 0, false, false, "every literal in a variable"}, {4, 4, true, true, "moved, parenthesised"}, {0, 0, true, true, "parenthesised, spaced"}, {8, 16, false, true, "every step in a variable"} };
        std::string base = build(vs[0]); c.describe(base);
        Outcome ref = runText(c, base, {});
        for(int i = 1; i < 5; i++) {
            std::string t = build(vs[i]); c.describe(base + "\n--- " + vs[i].what + ":\n" + t);
            Outcome a = runText(c, t, {});
            compareText(c, (std::string(vs[i].what) + ": host calls").c_str(), ref.log, a.log);
            if(a.error != ref.error) c.failStr(std::string(vs[i].what) + ": " + (a.error ? "fails: " + a.errors : "does not fail, but does with literals: " + ref.errors));
            if(!vs[i].lift) compareText(c, (std::string(vs[i].what) + ": errors").c_str(), kinds(ref.errors), kinds(a.errors));
            c.evaluations(1);
        }
        c.label("expressions"); if(ref.error) c.label("fails");
        if(ops >= 3) c.nontrivial(pbt::hashStr(base));
    };
    return pbt::main(P, argc, argv);
}
