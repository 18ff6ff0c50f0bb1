// C22: compiling in pieces equals compiling the whole.
#include "drive.h"
#include <unistd.h>
#include <fcntl.h>
#include <cstdlib>
#include <sstream>
using namespace lang;

// Error texts without "file:line: ".
static std::string messages(const std::string &t) {
    std::istringstream in(t); std::string l, o;
    while(std::getline(in, l)) {
        size_t a = l.find(':');
        if(a != std::string::npos) { size_t b = a + 1; while(b < l.size() && isdigit((unsigned char)l[b])) b++; if(b > a + 1 && b < l.size() && l[b] == ':') l = l.substr(b + 1); }
        o += l + "\n";
    }
    return o;
}
static bool compileFile(Host &h, const std::string &text) {
    char name[] = "/tmp/vp-c22-XXXXXX";
    int fd = mkstemp(name);
    if(fd < 0) { perror("mkstemp"); exit(2); }
    size_t done = 0; while(done < text.size()) { ssize_t k = write(fd, text.data() + done, text.size() - done); if(k <= 0) { perror("write"); exit(2); } done += (size_t)k; }
    close(fd);
    bool r = nkxCompilerCompileScriptFile(h.cs, name);
    unlink(name);
    return r;
}

int main(int argc, char **argv) {
    pbt::Property P;
    P.id = "C22";
    P.rule = "The top-level statements of a random program are cut into a random sequence of scripts (with empty and comment-only ones in between, in random layout), which one compiler gets all before running, or one by one with partial finalization and running after each (as the interpreter's interactive mode does; through iterate, slices, or execute; with globals looked up, native payloads collected and functions called in between), or a mixture; some pieces, and whole programs, through a file. Host calls, globals and error messages (without their positions) must be those of the program compiled as one script. Non-trivial: at least 2 non-empty pieces and 2 host calls; distinct by program text, cuts and mode.";
    P.assumptions = {};
    P.quickCases = 34000; P.thoroughCases = 900000; P.quickWall = 28; P.thoroughWall = 700;
    P.run = [](pbt::Case &c) {
        GenOpts o; o.stmts = 2 + c.size / 5; o.coroutines = c.g.chance(1, 2);
        GenProgram gp; makeProgram(c, gp, o);
        Outcome ref = referenceRun(c, gp);
        PrintOpts po; if(c.g.chance(1, 2)) po.layout = &c.g;
        std::vector<std::string> parts = printPieces(gp.p, po), pieces; std::vector<size_t> upTo;
        uint32_t den = 1 + c.g.below(4);
        for(size_t i = 0; i < parts.size(); i++) {
            if(i == 0 || c.g.chance(1, den)) pieces.push_back("");
            pieces.back() += parts[i];
        }
        size_t real = pieces.size();
        static const std::vector<std::string> hollow{"", "\n", "// nothing here", "// nothing\n", "   \t", "{ }", "\r\n\r\n"};
        for(int i = 0; i < 3; i++) if(c.g.chance(1, 3)) pieces.insert(pieces.begin() + c.g.below((uint32_t)pieces.size() + 1), c.g.pick(hollow));
        int mode = c.g.below(3); // 0: all first, 1: one by one, 2: mixed
        int file = c.g.chance(1, 3) ? 1 + c.g.below(2) : 0; // 1: all in one file, 2: some pieces
        if(file == 1) { std::string all; if(c.g.chance(1, 2)) all = gp.text; else for(auto &x : pieces) all += x + "\n"; pieces.assign(1, all); mode = c.g.below(2); }
        uint32_t gi = c.g.chance(1, 2) ? 1 + c.g.below(100) : 1024;
        std::string d = "\n--- mode " + std::to_string(mode) + (file ? ", from a file" : "") + ", pieces:"; uint64_t hash = 1;
        for(auto &x : pieces) { d += "\n~~~~\n" + x; hash = pbt::hashStr(x, hash * 31 + 7); }
        c.appendDescription(d);
        Host h; if(!h.create()) c.fail("creating the VM failed");
        nkxSetGarbageCollectionInterval(h.vm, gi); nkxSetGarbageCollectionNewObjectInterval(h.vm, 1 + c.g.below(30));
        bool stopped = false; int ran = 0;
        for(size_t i = 0; i < pieces.size(); i++) {
            bool viaFile = file == 1 || (file == 2 && c.g.chance(1, 2));
            bool ok = viaFile ? compileFile(h, pieces[i]) : nkxCompilerCompileScript(h.cs, pieces[i].c_str(), "piece.nks");
            if(!ok || h.hasErrors()) c.failStr("piece " + std::to_string(i) + (viaFile ? " (file)" : "") + " did not compile: " + (h.hasErrors() ? h.errorText() : std::string("no error reported")));
            if(!nkxCompilerIsAtRootContext(h.cs)) c.fail("piece %zu left the compiler inside a block", i);
            if(mode == 1 || (mode == 2 && c.g.chance(1, 2))) {
                nkxCompilerPartiallyFinalize(h.cs); ran++;
                switch(c.g.below(3)) {
                    case 0: nkxVmIterate(h.vm, 0xffffffffu); break;
                    case 1: nkxVmExecuteProgram(h.vm); break;
                    default: { uint64_t n = 0; uint32_t s = 1 + c.g.below(50); while(!h.hasErrors() && !nkxVmProgramHasEnded(h.vm) && n < RUN_CAP) { nkxVmIterate(h.vm, s); n += s; } }
                }
                if(h.hasErrors()) { stopped = true; break; }
                if(!nkxVmProgramHasEnded(h.vm)) c.fail("piece %zu has not run to its end", i);
                if(c.g.chance(1, 3)) { std::vector<std::string> some; for(auto &x : gp.names) if(nkxVmFindGlobalVariable(h.vm, nullptr, x.c_str())) some.push_back(x); dumpGlobals(h.vm, some); }
                if(c.g.chance(1, 4)) nkxVmGarbageCollect(h.vm);
                if(c.g.chance(1, 4)) nkxVmShrink(h.vm);
            }
        }
        if(!stopped) {
            h.finalize();
            if(h.hasErrors()) c.failStr("error in finalization: " + h.errorText());
            h.run(RUN_CAP);
        }
        compareText(c, "host calls", ref.log, h.log);
        compareText(c, "errors", messages(ref.errors), h.hasErrors() ? messages(h.errorText()) : "");
        // Globals of pieces that were never compiled do not exist.
        if(!stopped) compareText(c, "globals", ref.globals, dumpGlobals(h.vm, gp.names));
        uint32_t oc = (uint32_t)h.outCount;
        finish(c, h);
        c.label(mode == 0 ? "all compiled first" : mode == 1 ? "run one by one" : "mixed"); if(file) c.label(file == 1 ? "one file" : "some files");
        if(ref.error) c.label("ends with an error"); c.label("pieces", pieces.size()); c.label("partial finalizations", ran);
        if((real >= 2 || file == 1) && oc >= 2) c.nontrivial(pbt::hashMix(hash, (uint64_t)mode * 4 + file));
    };
    return pbt::main(P, argc, argv);
}
