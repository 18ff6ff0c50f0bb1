// C17: an error stops the script at once and leaves the host in control.
#include "drive.h"
#include <cstring>
using namespace lang;

namespace {
static const int BASE = 100000;    // lines per piece, as the reference interpreter sees them

// What must stay as it is once an error is reported.
struct Frozen {
    std::string log, globals, errors; uint64_t entries = 0; std::vector<std::string> names;
    void take(Host &h, const std::vector<std::string> &n, uint64_t e) { names = n; log = h.log; globals = dumpGlobals(h.vm, names); errors = h.errorText(); entries = e; }
    void check(pbt::Case &c, Host &h, uint64_t e, const std::string &what, bool logToo = true) {
        if(e != entries) c.failStr(what + ": a native function was entered after the error");
        if(logToo) compareText(c, (what + ": host calls").c_str(), log, h.log);
        if(!h.hasErrors()) c.failStr(what + ": the error is no longer reported");
        std::string t = h.errorText();
        if(t.compare(0, errors.size(), errors)) c.failStr(what + ": the error text changed\n before: " + errors + "\n after:  " + t);
        compareText(c, (what + ": globals").c_str(), globals, dumpGlobals(h.vm, names));
        if(!h.hasErrors()) c.failStr(what + ": the error is no longer reported");
    }
};
// Things a host may try while an error is reported. None may run anything.
void poke(pbt::Case &c, Host &h, Frozen &f, uint64_t &entries, int n) {
    for(int i = 0; i < n; i++) {
        std::string what;
        switch(c.g.below(13)) {
            case 0: case 1: { uint32_t k = c.g.chance(1, 2) ? 1 + c.g.below(20) : 100000; nkxVmIterate(h.vm, k); what = "iterating"; break; }
            case 2: { bool ok = nkxVmExecuteProgram(h.vm); what = "executing"; if(ok) c.fail("executing reported success"); break; }
            case 3: case 4: {
                if(f.names.empty()) break;
                NKValue *v = nkxVmFindGlobalVariable(h.vm, nullptr, c.g.pick(f.names).c_str()); if(!v) break;
                NKValue fn = *v, a[3] = { intValue(h.vm, 1), nilValue(), intValue(h.vm, 2) }, r = nilValue();
                nkxVmCallFunction(h.vm, &fn, c.g.below(4), a, &r); what = "calling a function"; break;
            }
            case 5: { NKValue *v = nkxVmFindGlobalVariable(h.vm, nullptr, c.g.chance(1, 2) ? "out" : "call"); if(!v) break; NKValue fn = *v, a = intValue(h.vm, 1), r = nilValue(); nkxVmCallFunction(h.vm, &fn, 1, &a, &r); what = "calling a native function"; break; }
            case 6: nkxVmGarbageCollect(h.vm); what = "collecting"; break;
            case 7: nkxVmShrink(h.vm); what = "shrinking"; break;
            case 8: { FILE *o = fopen("/dev/null", "w"); nkxDbgDumpState(h.vm, nullptr, o); fclose(o); what = "dumping"; break; }
            case 9: { Image img; if(saveImage(h.vm, img)) {} what = "saving"; break; }
            case 10: { nkxAddError(h.vm, "another error"); what = "adding an error"; break; }
            case 11: if(h.cs) { static const std::vector<const char *> later{"out(77);", "var late; late = 5; out(late);", "function (", "out(", "", "}"}; nkxCompilerCompileScript(h.cs, c.g.pick(later), "late.nks"); what = "compiling"; } break;
            default: { NKValue v = nilValue(); nkxCreateObject(h.vm, &v); what = "creating an object"; break; }
        }
        if(what.size()) { c.label("tried while in error"); f.check(c, h, entries, what + " while an error is reported"); }
    }
}

void stops(pbt::Case &c) {
    GenOpts o; o.stmts = 2 + c.size / 5; o.coroutines = c.g.chance(2, 3); o.wildAllowed = false; o.nativeErrors = false;
    GenProgram gp; generate(gp.p, c.g, o); gp.text = print(gp.p); gp.names = gp.p.userGlobals();
    int mode = c.g.weighted({3, 3, 2, 1});     // between steps, inside a native, planted, instruction limit
    if(mode == 2) { plantFailures(gp.p, c.g, 1 + c.g.below(2)); gp.text = print(gp.p); }
    c.describe(gp.text);
    gp.m.fuel = 20000; gp.m.run(gp.p); if(gp.m.discarded) c.discard(gp.m.why);
    Host h; uint64_t entries = 0; bool finalized = true; Frozen f; bool frozen = false; uint64_t at = UINT64_MAX;
    if(mode == 1) at = c.g.below(c.g.chance(1, 2) ? 10 : 200);
    h.onNative = [&](Host &x, const char *) {
        if(entries++ == at && !x.hasErrors()) { nkxAddError(x.vm, "raised inside"); f.take(x, gp.names, entries); frozen = true; }
    };
    prepare(c, h, gp.text); (void)finalized;
    nkxSetGarbageCollectionInterval(h.vm, 1 + c.g.below(200));
    uint64_t n = 0, stopAt = mode == 0 ? c.g.below(c.g.chance(1, 2) ? 60 : 3000) : UINT64_MAX; int how = c.g.below(mode == 0 ? 3 : 4);
    if(mode == 3) nkxSetRemainingInstructionLimit(h.vm, 1 + c.g.below(c.g.chance(1, 2) ? 100 : 3000));
    if(how == 3) { bool ok = nkxVmExecuteProgram(h.vm); if(ok == h.hasErrors()) c.failStr(ok ? "executing reported success with errors" : "executing reported failure without errors"); c.label("run in one go"); }
    else while(!h.hasErrors() && !nkxVmProgramHasEnded(h.vm) && n < RUN_CAP && n < stopAt) { uint32_t s = how == 0 ? 1 : how == 1 ? 1 + c.g.below(40) : 3000; if(n + s > stopAt) s = (uint32_t)(stopAt - n); nkxVmIterate(h.vm, s); n += s; }
    if(mode == 0) { nkxAddError(h.vm, "raised by the host"); }
    if(!h.hasErrors()) { if(mode == 2 && gp.m.error) c.failStr("missing error: " + gp.m.errorText); c.discard("ended before the error"); }
    if(mode == 2) { compareText(c, "host calls up to the error", gp.m.log, h.log); if(!gp.m.error) c.failStr("unexpected error: " + h.errorText()); }
    if(frozen) f.check(c, h, entries, "after an error inside a native function", false);     // that function itself goes on
    f.take(h, gp.names, entries);
    static const char *const modes[] = {"stopped between instructions", "stopped inside a native", "stopped by the program itself", "stopped by the instruction limit"};
    c.label(modes[mode]); c.nontrivial(pbt::hashMix(pbt::hashStr(gp.text), n * 4 + mode + (at << 32)));
    poke(c, h, f, entries, 1 + c.g.below(8));
    finish(c, h);
}

// ---- interactive sessions ----
const std::vector<const char *> loose{"0123", "1.2.3;", "else", "while(1", "do { out(1); } while(0", "for(var q = 0; q < 3; q = q + 1 { }", "function nn(a, b { }", "var nv = 5 +;", "out(1, 2", "if(1) out(1); else", "object()[", "{ var z1; { var z2; out(z2", "function n1() { function n2() { while(1) { break; } return 1 }", "out(function() { var k; return k + ; });", "coroutine(function() { yield(1; });", "x -> y -> ", "var dd = 1; var dd = 2; var ee = (", "\"unterminated", "// only a comment\n)", "}}}}", "while(1) { for(;1;) {", "break;"};
// Ill formed for certain, whatever comes before it.
std::string broken(pbt::Case &c, const std::string &next) {
    std::string t;
    switch(c.g.weighted({4, 3, 3, 2})) {
        case 0: {     // an ill-formed statement, nested somewhere, with statements around it
            int d = c.g.below(5); bool loop = false; std::string close;
            for(int i = 0; i < d; i++) { if(c.g.chance(1, 2)) t += "out(\"never\");\n"; if(c.g.chance(1, 3)) t += "var n" + std::to_string(i) + " = " + std::to_string(i) + ";\n"; switch(c.g.below(5)) { case 0: t += "function nest" + std::to_string(i) + "(a, b) {\n"; loop = false; break; case 1: t += "if(1) {\n"; break; case 2: t += "{\n"; break; case 3: t += "for(var q = 0; q < 2; ++q) {\n"; loop = true; break; default: t += "while(0) {\n"; loop = true; } if(c.g.chance(1, 2)) { close += "}\n"; } }
            std::string s = c.g.pick(illFormed); if(loop && s == "break;") s = "1 = 2;";
            t += s; if(c.g.chance(1, 2)) t += close; break;
        }
        case 1: { std::string s = c.g.pick(loose); if(c.g.chance(1, 3)) t = "var nx = 3; out(nx);\n"; t += s; if(s == "0123") t += ";;"; break; }
        case 2: t = next + c.g.pick(std::vector<std::string>{")", "}", "undeclared_name;", "var;", "@", "1 = 2;", "else", "out(1 2);", "\"open", "while(1) {", "function("}); c.label("input retyped after a mistake"); break;
        default: { std::vector<std::string> deep{"(", "[", "{", "if(1) { ", "-", "function() { ", "while(1) ", "out("}; std::string d = c.g.pick(deep); int n = 100 + c.g.below(400); t = c.g.chance(1, 2) ? "out(1); " : ""; for(int i = 0; i < n; i++) t += d; t += "0"; break; }
    }
    return t;
}

void session(pbt::Case &c) {
    GenOpts o; o.stmts = 3 + c.size / 4; o.coroutines = c.g.chance(2, 3); o.wildAllowed = c.g.chance(1, 2); o.nativeErrors = c.g.chance(1, 2);
    Program p; generate(p, c.g, o); plantFailures(p, c.g, c.g.below(5));
    PrintOpts po; po.lineBase = BASE; if(c.g.chance(1, 2)) po.layout = &c.g;
    std::vector<std::string> parts = printPieces(p, po); std::vector<std::string> names = p.userGlobals();
    Model m; m.fuel = 20000; m.begin(p);
    Host h; uint64_t entries = 0; h.onNative = [&](Host &, const char *) { entries++; };
    if(!h.create()) c.fail("creating the VM failed");
    nkxSetGarbageCollectionInterval(h.vm, 1 + c.g.below(c.g.chance(1, 2) ? 10 : 300));
    struct Place { std::string file; int64_t first; }; std::vector<Place> place(parts.size());
    std::string shown; int inputs = 0; uint64_t compileErrors = 0, runErrors = 0, good = 0; bool afterError = false;
    std::vector<std::string> known;        // globals declared so far
    auto input = [&](const std::string &t) { std::string name = "input" + std::to_string(++inputs); shown += "~~~~ " + name + "\n" + t + "\n"; c.describe(shown); return name; };
    auto atRoot = [&] { if(!nkxCompilerIsAtRootContext(h.cs)) c.fail("the compiler is left inside a block or function"); };
    auto globalsOf = [&](size_t upTo) { std::vector<std::string> r; (void)upTo; for(auto &n : names) { NKValue *v = nkxVmFindGlobalVariable(h.vm, h.cs, n.c_str()); if(v) r.push_back(n); } return r; };
    (void)globalsOf;
    for(size_t i = 0; i < parts.size();) {
        size_t n = 1 + c.g.below(c.g.chance(1, 2) ? 1 : 4); if(i + n > parts.size()) n = parts.size() - i;
        std::string text; int64_t line = 1; bool functions = false;
        for(size_t k = i; k < i + n; k++) { place[k] = { "", line }; text += parts[k]; for(char ch : parts[k]) line += ch == '\n'; }
        functions = text.find("function") != std::string::npos;
        // Inputs that do not compile.
        int bad = c.g.chance(1, 3) ? 1 + c.g.below(3) : 0; if(bad && c.g.chance(1, 20)) bad = 300;
        for(int b = 0; b < bad; b++) {
            std::string t; if(bad == 300 && b > 2) t = illFormed[b % illFormed.size()]; else t = broken(c, text);
            uint32_t old = nkxCompilerGetInstructionWriteIndex(h.cs); std::string name = input(t); std::string before = dumpGlobals(h.vm, known);
            nkxCompilerCompileScript(h.cs, t.c_str(), name.c_str());
            if(!h.hasErrors()) c.failStr("no error was reported for " + name);
            compareText(c, "globals after an input that does not compile", before, dumpGlobals(h.vm, known));
            if(bad < 10) { Frozen f; f.take(h, known, entries); poke(c, h, f, entries, c.g.below(4)); }
            nkxCompilerClearReplErrorState(h.cs, old);
            if(h.hasErrors()) c.failStr("errors after clearing them: " + h.errorText());
            if(nkxGetErrorCount(h.vm)) c.fail("errors are counted after clearing them");
            atRoot();
            compareText(c, "globals after clearing the error", before, dumpGlobals(h.vm, known));
            compileErrors++; afterError = true;
        }
        // An error of the host's own between inputs.
        if(c.g.chance(1, 12)) { nkxAddError(h.vm, "by the host"); Frozen f; f.take(h, known, entries); poke(c, h, f, entries, 1 + c.g.below(3)); nkxCompilerClearReplErrorState(h.cs, nkxCompilerGetInstructionWriteIndex(h.cs)); if(h.hasErrors()) c.fail("errors after clearing them"); afterError = true; c.label("host errors"); }
        if(c.g.chance(1, 8)) { if(c.g.chance(1, 2)) nkxVmGarbageCollect(h.vm); else nkxVmShrink(h.vm); }
        // The input itself.
        uint32_t old = nkxCompilerGetInstructionWriteIndex(h.cs); std::string name = input(text);
        for(size_t k = i; k < i + n; k++) place[k].file = name;
        bool ok = h.compile(text, name.c_str());
        if(!ok || h.hasErrors()) c.failStr(name + " is well formed, but did not compile: " + h.errorText());
        atRoot();
        nkxCompilerPartiallyFinalize(h.cs);
        // The model first: what never ends in it is not run.
        m.runTop(i, i + n);
        if(m.discarded) c.discard(m.why);
        if(c.g.chance(1, 3)) { uint64_t q = 0; while(!h.hasErrors() && !nkxVmProgramHasEnded(h.vm) && q < RUN_CAP) { uint32_t s = 1 + c.g.below(50); nkxVmIterate(h.vm, s); q += s; } } else if(c.g.chance(1, 2)) { bool done = nkxVmExecuteProgram(h.vm); if(done == h.hasErrors()) c.failStr(done ? "executing reported success with errors" : "executing reported failure without errors"); } else h.run(RUN_CAP);
        for(size_t k = i; k < i + n; k++) { Stmt *s = p.top[k]; if(s->k == SK::Var || s->k == SK::Func) known.push_back(s->name); }
        i += n; good++;
        if(h.log != m.log) { if(h.hasErrors()) c.appendDescription("\n--- reported errors: " + h.errorText()); if(m.error) c.appendDescription("\n--- expected error: " + m.errorText); compareText(c, ("host calls in " + name).c_str(), m.log, h.log); }
        if(h.hasErrors() != m.error) c.failStr(m.error ? "missing error in " + name + ": " + m.errorText : "unexpected error in " + name + ": " + h.errorText());
        if(!m.error && !nkxVmProgramHasEnded(h.vm)) c.failStr(name + " has not ended");
        std::string want; try { want = m.globalsNow(known); } catch(...) { c.discard("globals without text"); }
        compareText(c, ("globals after " + name).c_str(), want, dumpGlobals(h.vm, known));
        if(afterError) c.label("good inputs after an error");
        if(m.error) {
            // Where it happened: function bodies belong to the input that defined them.
            std::string t = h.errorText(); int piece = (m.errorLine - 1) / BASE; const Place &pl = place[piece]; int64_t a = pl.first + (m.errorLine - 1) % BASE, b = pl.first + (m.errorEnd - 1) % BASE;
            size_t e = t.find(':'); if(e == std::string::npos || t.substr(0, e) != pl.file || atoll(t.c_str() + e + 1) < a || atoll(t.c_str() + e + 1) > b) c.failStr("the error (" + m.errorText + ") belongs to " + pl.file + ":" + std::to_string(a) + ".." + std::to_string(b) + ", reported: " + t);
            Frozen f; f.take(h, known, entries); poke(c, h, f, entries, c.g.below(4));
            // Functions the input defined before it failed are still there. Without any, its code may as well go.
            nkxCompilerClearReplErrorState(h.cs, !functions && c.g.chance(1, 2) ? old : nkxCompilerGetInstructionWriteIndex(h.cs));
            if(h.hasErrors()) c.failStr("errors after clearing them: " + h.errorText());
            atRoot(); compareText(c, "globals after clearing the error", want, dumpGlobals(h.vm, known));
            m.clearError(); runErrors++; afterError = true;
        }
    }
    c.label("inputs that do not compile", compileErrors); c.label("inputs that fail", runErrors); c.label("inputs that work", good);
    if(afterError) { c.label("sessions with errors"); c.nontrivial(pbt::hashStr(shown)); }
    nkxVmGarbageCollect(h.vm);
    compareText(c, "globals at the end", m.globalsNow(known), dumpGlobals(h.vm, known));
    h.finalize(); if(h.hasErrors()) c.failStr("error at the end of the session: " + h.errorText());
    finish(c, h);
}
}

int main(int argc, char **argv) {
    pbt::Property P;
    P.id = "C17";
    P.rule = "(1) Random programs stopped by an error at a random point: added by the host between two instructions or inside a native function (however deeply nested in host calls and coroutines), raised by the program itself, or by the instruction limit. From then on no native function may be entered and no global may change, whatever the host tries (iterate, execute, call, compile, collect, shrink, save, dump, more errors); the error stays reported with its text; deletion gives back everything. (2) Interactive sessions: the statements of a random program in inputs of 1-4, with failing statements planted in it, between them inputs that do not compile (ill-formed statements in unclosed nesting, the next input with a mistake in it, nesting too deep, several hundred in a row) and errors of the host's own; after each failed input the error is cleared. The reference interpreter carries on after an error with the effects up to it. Host calls, globals, error or not, and its file and line are compared after every input. Non-trivial: stopped by an error / a session with at least one failed input; distinct by text, place and mode.";
    P.assumptions = {"after an input that did not compile the host resets to where its code began; after one that failed while running, to where its code ends if it defined functions"};
    P.quickCases = 60000; P.thoroughCases = 2000000; P.quickWall = 28; P.thoroughWall = 800;
    P.run = [](pbt::Case &c) { if(c.g.chance(1, 3)) stops(c); else session(c); };
    return pbt::main(P, argc, argv);
}
