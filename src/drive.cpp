#include "drive.h"
using namespace lang;

Outcome outcomeOf(Host &h, const std::vector<std::string> &names) {
    Outcome o; o.log = h.log; o.error = h.hasErrors();
    if(o.error) o.errors = h.errorText();
    o.ended = nkxVmProgramHasEnded(h.vm);
    o.globals = dumpGlobals(h.vm, names);
    return o;
}
void compareOutcome(pbt::Case &c, const char *what, const Outcome &e, const Outcome &a) {
    std::string w = what;
    if(a.log != e.log && a.error && a.errors != e.errors) c.appendDescription("\n--- errors reported: " + a.errors);
    compareText(c, (w + ": host calls").c_str(), e.log, a.log);
    compareText(c, (w + ": errors").c_str(), e.errors, a.errors);
    if(e.ended != a.ended) c.failStr(w + ": the program " + (a.ended ? "has" : "has not") + " ended");
    compareText(c, (w + ": globals").c_str(), e.globals, a.globals);
}
void makeProgram(pbt::Case &c, GenProgram &gp, const GenOpts &o, bool layout) {
    generate(gp.p, c.g, o);
    PrintOpts po; if(layout) po.layout = &c.g;
    gp.text = print(gp.p, po);
    gp.names = gp.p.userGlobals();
    c.describe(gp.text);
    gp.m.fuel = 20000;
    gp.m.run(gp.p);
    if(gp.m.discarded) c.discard(gp.m.why);
}
void prepare(pbt::Case &c, Host &h, const std::string &text) {
    if(!h.create()) c.fail("creating the VM failed");
    if(!h.compile(text) || h.hasErrors()) c.failStr("a well-formed program did not compile:\n" + h.errorText());
    h.finalize();
    if(h.hasErrors()) c.failStr("error in finalization:\n" + h.errorText());
}
Outcome referenceRun(pbt::Case &c, const GenProgram &gp, bool count) {
    Host h; prepare(c, h, gp.text);
    nkxSetGarbageCollectionInterval(h.vm, 1u << 30);
    uint64_t n = 0;
    if(count) {
        while(n < RUN_CAP && !h.hasErrors() && !nkxVmProgramHasEnded(h.vm)) { nkxVmIterate(h.vm, 1); n++; }
        if(n >= RUN_CAP) c.discard("many instructions");
    } else if(!h.run(RUN_CAP)) c.discard("many instructions");
    Outcome o = outcomeOf(h, gp.names); o.instructions = n;
    finish(c, h);
    return o;
}

// Statements that are errors, found on the line they stand on.
const std::vector<const char *> illFormed{"undeclared_name + 1;", "1 = 2;", "var dup1; var dup1;", "out(1 2);", "out(1;", "var;", "if 1 { }", "\"text;", "@;", "break;", "x_undeclared = 5;", "return;", "out(1 +);", "object(;", "var a5 = ;", "function(a, a { }", "out((1);", "while() { }", "3++;", "-;", "{ } else { }", "for(;;) { }", "`", "\"a\\q\" $ 1;", "out(&1);", "out(1)->;", "out.;", "coroutine();;)", "yield(1, 2);", "resume();", "len();", "is_finished(1, 2);"};

Stmt *failingStatement(Program &p, pbt::Gen &g) {
    Expr *e; auto num = [&] { return p.eInt((int)g.range(1, 9)); };
    auto pad = [&](Expr *x) { return g.chance(1, 2) ? p.eCall(p.eNative(N_ID), { x }) : x; };
    switch(g.below(14)) {
        case 0: e = p.eBin("/", pad(num()), pad(p.eInt(0))); break;
        case 1: e = p.eBin("%", pad(num()), pad(p.eInt(0))); break;
        case 2: e = p.eField(pad(p.eNil()), "x"); break;
        case 3: e = p.eAssign(p.eField(p.eNative(N_ID), "x"), num()); break;
        case 4: e = p.eCall(p.eNative(N_ERR), {}); break;
        case 5: e = p.eCall(p.eNative(N_SUM), { num(), p.eStr("x") }); break;
        case 6: e = p.eCall(pad(num()), { num() }); break;
        case 7: e = p.eBuiltin("resume", { pad(num()) }); break;
        case 8: e = p.eUn("-", pad(p.eStr("x"))); break;
        case 9: e = p.eBin("*", pad(p.eStr("x")), num()); break;
        case 10: e = p.eBuiltin("len", { pad(num()) }); break;
        case 11: e = p.eCall(p.eNative(N_SUM), { num() }); break;
        case 12: e = p.eCall(p.eNative(N_CALL), { pad(num()) }); break;
        default: e = p.eBin("-", pad(p.eNil()), num());
    }
    if(g.chance(1, 2)) e = p.eCall(p.eNative(N_OUT), { num(), e, num() });
    Stmt *s = p.sExpr(e);
    if(g.chance(1, 8)) { Stmt *w = p.st(SK::If); w->e = e; s = w; } else if(g.chance(1, 8)) { Stmt *w = p.st(SK::While); w->e = e; s = w; }
    else if(g.chance(1, 12)) { Stmt *w = p.st(SK::DoWhile); w->e = e; w->b1.push_back(p.sExpr(p.eCall(p.eNative(N_OUT), { num() }))); s = w; }
    return s;
}
void plantFailures(Program &p, pbt::Gen &g, int k) {
    std::vector<std::vector<Stmt *> *> bodies{&p.top}; for(auto &s : p.stmts) { if(s->b1.size()) bodies.push_back(&s->b1); if(s->b2.size()) bodies.push_back(&s->b2); } for(auto &f : p.funcs) if(f->body.size()) bodies.push_back(&f->body);
    for(int i = 0; i < k; i++) { auto *b = bodies[g.below((uint32_t)bodies.size())]; b->insert(b->begin() + g.below((uint32_t)b->size() + 1), failingStatement(p, g)); }
    for(auto &s : p.stmts) s->braces = true;
}
