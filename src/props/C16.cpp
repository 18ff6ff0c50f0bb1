// C16: errors name the file and line where they happened.
#include "drive.h"
#include <cstring>
#include <sstream>
using namespace lang;

namespace {
static const int BASE = 100000;    // lines per piece, as the reference interpreter sees them
struct Place { std::string file; int64_t first = 0; };          // of each piece: where its line 1 is
struct Entry { std::string file, message; int64_t line = 0; bool ok = false; };

std::vector<Entry> entries(const std::string &text) {
    std::vector<Entry> r; std::istringstream in(text); std::string l;
    while(std::getline(in, l)) {
        Entry e; size_t a = l.find(": ");      // file names used here contain no ": "
        if(a != std::string::npos) { size_t b = l.rfind(':', a - 1); if(b != std::string::npos && b + 1 < a) { std::string n = l.substr(b + 1, a - b - 1); if(n.find_first_not_of("0123456789") == std::string::npos) { e.ok = true; e.file = l.substr(0, b); e.line = atoll(n.c_str()); e.message = l.substr(a + 2); } } }
        r.push_back(e);
    }
    return r;
}
// The announced length and count are those of the text.
void law(pbt::Case &c, NKVM *vm) {
    uint32_t n = nkxGetErrorLength(vm), count = nkxGetErrorCount(vm);
    std::vector<char> b(n + 8, 'X'); nkxGetErrorText(vm, b.data());
    size_t len = strnlen(b.data(), n);
    if(len + 1 != n) c.fail("error text: length %u announced, %zu characters and the end written", n, len);
    for(int i = 0; i < 8; i++) if(b[n + i] != 'X') c.fail("error text: written past the announced length");
    size_t lines = 0; for(size_t i = 0; i < len; i++) lines += b[i] == '\n';
    if(lines != count) c.fail("%u errors counted, the text has %zu lines", count, lines);
    if((count > 0) != (bool)nkxVmHasErrors(vm)) c.fail("%u errors counted, but errors are%s reported", count, nkxVmHasErrors(vm) ? "" : " not");
    if(len && b[len - 1] != '\n') c.fail("the error text does not end with a line end");
}
const std::vector<std::string> fileNames{"a.nks", "dir/b.nks", "c with blanks.nks", "a.nks2", "a", "<stdin>", "x:y.nks", "very/long/path/0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789.nks"};

struct Layout { std::vector<std::string> scripts, names; std::vector<Place> place; std::string shown; };
// The pieces in one or more scripts, with directives between them.
Layout layOut(pbt::Case &c, const std::vector<std::string> &parts) {
    Layout L; L.place.resize(parts.size()); std::string file; int64_t next = 1; uint32_t den = c.g.chance(1, 3) ? 1u << 30 : 2 + c.g.below(8);
    for(size_t i = 0; i < parts.size(); i++) {
        if(i == 0 || c.g.below(den) == 0) { L.scripts.push_back(""); L.names.push_back(c.g.pick(fileNames)); file = L.names.back(); next = 1; }
        std::string &t = L.scripts.back();
        while(c.g.chance(1, 6)) switch(c.g.below(7)) {
            case 0: t += "\n"; next++; break;
            case 1: t += "// comment\r\n"; next++; break;
            case 2: { int64_t n = (int64_t)c.g.below(3) ? c.g.below(3000) + 1 : 1 + c.g.below(1000000000); t += "#line " + std::to_string(n) + "\n"; next = n; break; }
            case 3: { int64_t n = c.g.below(50) + 1; std::string f = c.g.pick(fileNames); t += "#line " + std::to_string(n) + " \"" + f + "\"\n"; next = n; file = f; break; }
            case 4: { std::string f = c.g.pick(fileNames); t += "#file \"" + f + "\"\n"; next++; file = f; break; }
            case 5: t += "    #   line   77   \r\n"; next = 77; break;
            default: { std::string f = c.g.pick(fileNames); t += "#file \"" + f + "\"\n#line 10\n"; next = 10; file = f; }
        }
        L.place[i] = { file, next };
        t += parts[i]; for(char ch : parts[i]) next += ch == '\n';
    }
    for(size_t i = 0; i < L.scripts.size(); i++) L.shown += "~~~~ " + L.names[i] + "\n" + L.scripts[i];
    return L;
}
void compileAll(pbt::Case &c, Host &h, const Layout &L, bool expectOk) {
    for(size_t i = 0; i < L.scripts.size(); i++) {
        bool ok = nkxCompilerCompileScript(h.cs, L.scripts[i].c_str(), L.names[i].c_str());
        // A misused name does not stop the compiler, so success may come with errors; failure must.
        if(!ok && !h.hasErrors()) c.fail("compiling failed, but no errors are reported");
        if(h.hasErrors()) { if(expectOk) c.failStr("a script did not compile: " + h.errorText()); return; }
    }
}
void checkPosition(pbt::Case &c, Host &h, const std::string &file, int64_t a, int64_t b, const char *what, bool firstOnly = false) {
    law(c, h.vm); auto es = entries(h.errorText());
    for(auto &e : es) {
        if(!e.ok) c.failStr(std::string(what) + ": not file:line: message:\n" + h.errorText());
        if(firstOnly && &e != &es[0]) continue;     // what follows an ill-formed statement may be misunderstood
        if(e.file != file || e.line < a || e.line > b) c.failStr(std::string(what) + ": expected " + file + ":" + std::to_string(a) + (b != a ? ".." + std::to_string(b) : "") + ", reported:\n" + h.errorText());
    }
}

void runTime(pbt::Case &c) {
    GenOpts o; o.stmts = 2 + c.size / 5; o.coroutines = c.g.chance(1, 2); o.wildAllowed = c.g.chance(1, 2); o.nativeErrors = c.g.chance(1, 2);
    GenProgram gp; generate(gp.p, c.g, o); Program &p = gp.p;
    // A failing statement somewhere.
    plantFailures(p, c.g, 1 + c.g.below(3));
    PrintOpts po; po.lineBase = BASE; if(c.g.chance(2, 3)) po.layout = &c.g;
    std::vector<std::string> parts = printPieces(p, po);
    Layout L = layOut(c, parts); c.describe(L.shown);
    gp.m.fuel = 20000; gp.m.run(p); if(gp.m.discarded) c.discard(gp.m.why);
    Host h; if(!h.create()) c.fail("creating the VM failed");
    compileAll(c, h, L, true); h.finalize();
    nkxSetGarbageCollectionInterval(h.vm, 1 + c.g.below(100));
    std::unique_ptr<Host> loaded; Host *x = &h; int how = c.g.below(4); bool save = c.g.chance(1, 2); uint64_t cut = c.g.below(c.g.chance(1, 2) ? 40 : 2000), n = 0;
    while(!x->hasErrors() && !nkxVmProgramHasEnded(x->vm) && n < RUN_CAP) {
        uint32_t step = how == 0 ? 1 : how == 1 ? 1 + c.g.below(50) : 5000; if(save && n < cut && n + step > cut) step = (uint32_t)(cut - n);
        nkxVmIterate(x->vm, step); n += step;
        if(save && n == cut && !x->hasErrors()) {
            Image img; if(!saveImage(x->vm, img)) c.fail("saving failed");
            loaded = std::make_unique<Host>(); if(!loaded->createVmOnly()) c.fail("creating a VM failed"); loaded->takeOver(*x);
            if(!loaded->start() || !loadImage(loaded->vm, img)) c.failStr("loading failed: " + loaded->errorText());
            loaded->log = x->log; if(x->hasErrors()) c.fail("saving reported an error"); x = loaded.get(); save = false; c.label("saved and loaded");
        }
    }
    if(x->hasErrors() != gp.m.error) c.failStr(gp.m.error ? "an error is expected (" + gp.m.errorText + "), none was reported" : "unexpected error: " + x->errorText());
    law(c, x->vm);
    if(gp.m.error) {
        int piece = (gp.m.errorLine - 1) / BASE; const Place &pl = L.place[piece];
        checkPosition(c, *x, pl.file, pl.first + (gp.m.errorLine - 1) % BASE, pl.first + (gp.m.errorEnd - 1) % BASE, ("run-time error (" + gp.m.errorText + ")").c_str());
        c.label("run-time errors"); c.nontrivial(pbt::hashStr(L.shown));
    }
    // Errors added by the host: text kept to the letter.
    uint32_t before = nkxGetErrorCount(x->vm); int add = c.g.below(3);
    for(int i = 0; i < add; i++) {
        std::string m; if(c.g.chance(1, 4)) m = std::string(1 + c.g.below(3000), 'm'); else { m = randomString(c.g, 30); for(char &ch : m) if(ch == '\n' || ch == '\r') ch = ' '; }
        nkxAddError(x->vm, m.c_str()); law(c, x->vm);
        if(nkxGetErrorCount(x->vm) != before + 1 + i) c.fail("adding an error gives %u errors after %u", nkxGetErrorCount(x->vm), before + i);
        std::string t = x->errorText(); std::string want = ": " + m + "\n"; if(t.size() < want.size() || t.compare(t.size() - want.size(), want.size(), want)) c.failStr("an error added by the host reads otherwise: " + t.substr(t.size() - std::min(t.size(), want.size() + 40)));
    }
    if(loaded) loaded->destroy();
}

void compileTime(pbt::Case &c) {
    GenOpts o; o.stmts = 1 + c.size / 8; o.wildAllowed = false;
    GenProgram gp; generate(gp.p, c.g, o);
    PrintOpts po; if(c.g.chance(1, 2)) po.layout = &c.g;
    std::vector<std::string> parts = printPieces(gp.p, po);
    size_t at = c.g.below((uint32_t)parts.size() + 1); int badLine = 0; std::string bad, stmt = c.g.pick(illFormed), text;
    auto filler = [&] { int n = c.g.below(4); for(int i = 0; i < n; i++) { text += c.g.chance(1, 2) ? "\n" : "out(1);\n"; } };
    // Perhaps nested in functions and blocks.
    int depth = c.g.below(4), closes = 0; bool inLoop = false; filler();
    for(int i = 0; i < depth; i++) { switch(c.g.below(4)) { case 0: text += "function nest" + std::to_string(i) + "(a, b) {\n"; inLoop = false; break; case 1: text += "if(1) {\n"; break; case 2: text += "{\n"; break; default: text += "while(0) {\n"; inLoop = true; } closes++; filler(); }
    if(inLoop && stmt == "break;") stmt = "1 = 2;";
    for(char ch : text) badLine += ch == '\n';
    bool last = c.g.chance(1, 2);
    text += c.g.chance(1, 3) ? "out(2); " + stmt : stmt;
    text += "\n"; filler(); (void)last;
    for(int i = 0; i < closes; i++) text += "}\n";
    parts.insert(parts.begin() + at, text);
    if(at + 1 == parts.size() && c.g.chance(1, 3) && !closes) { std::string &t = parts.back(); while(t.size() && t.back() == '\n') t.pop_back(); }    // the very end of the script
    Layout L = layOut(c, parts); c.describe(L.shown); c.appendDescription("\n--- ill-formed: " + stmt);
    Host h; if(!h.create()) c.fail("creating the VM failed");
    compileAll(c, h, L, false);
    if(!h.hasErrors()) c.fail("no error was reported");
    int64_t want = L.place[at].first + badLine;
    checkPosition(c, h, L.place[at].file, want, want, "compile-time error", true);
    h.finalize(); h.run(RUN_CAP); if(h.log.size()) c.fail("a program that does not compile was run"); law(c, h.vm);
    c.label("compile-time errors"); c.nontrivial(pbt::hashStr(L.shown));
}
}

int main(int argc, char **argv) {
    pbt::Property P;
    P.id = "C16";
    P.rule = "Random programs with failing statements put in at random places (any block, function or coroutine body, loop or if condition), or with an ill-formed statement at any nesting, in random layout (statements over several lines, comments, all line ends), spread over several scripts with different file names, with #line and #file directives in all forms between statements, single-stepped or in slices, perhaps saved and loaded before the error. The reference interpreter says which statement fails; every error reported must name its file and a line within it. The error text must be as long as announced, have one line per error counted, and host messages to the letter. Non-trivial: an error was expected; distinct by text.";
    P.assumptions = {"the statement blamed for a compile-time error stands on one line and is wrong by itself, not by what follows it"};
    P.quickCases = 60000; P.thoroughCases = 2000000; P.quickWall = 28; P.thoroughWall = 800;
    P.run = [](pbt::Case &c) { if(c.g.chance(1, 3)) compileTime(c); else runTime(c); };
    return pbt::main(P, argc, argv);
}
