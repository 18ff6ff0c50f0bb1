#include "common.h"
#include <sstream>

std::string compileAndRun(Host &h, const std::string &text, uint32_t gcInterval) {
    if(!h.create()) return "creating the VM failed";
    if(gcInterval) nkxSetGarbageCollectionInterval(h.vm, gcInterval);
    bool ok = h.compile(text);
    if(!ok || h.hasErrors()) return "a well-formed program did not compile:\n" + h.errorText();
    h.finalize();
    if(h.hasErrors()) return "error in finalization:\n" + h.errorText();
    if(!h.run()) return "the program did not end";
    return "";
}

void compareText(pbt::Case &c, const char *what, const std::string &expected, const std::string &actual) {
    if(expected == actual) return;
    std::istringstream a(expected), b(actual); std::string x, y; int line = 0;
    for(;;) {
        bool ga = (bool)std::getline(a, x), gb = (bool)std::getline(b, y);
        line++;
        if(!ga) x = "(end)";
        if(!gb) y = "(end)";
        if(x != y || (!ga && !gb)) break;
    }
    if(x.size() > 1500) x.resize(1500);
    if(y.size() > 1500) y.resize(1500);
    c.failStr(std::string(what) + ": line " + std::to_string(line) + " differs\n expected: " + x + "\n actual:   " + y);
}

void compareWithModel(pbt::Case &c, Host &h, lang::Model &m, lang::Program &p) {
    bool err = h.hasErrors();
    std::string et = err ? h.errorText() : "";
    if(h.log != m.log) {
        if(err) c.appendDescription("\n--- reported errors: " + et);
        if(m.error) c.appendDescription("\n--- model error: " + m.errorText);
        compareText(c, "host calls", m.log, h.log);
    }
    if(err != m.error) {
        if(err) c.failStr("unexpected error: " + et);
        c.failStr("missing error: the program should have stopped with: " + m.errorText);
    }
    if(!err && !nkxVmProgramHasEnded(h.vm)) c.failStr("the program has not ended");
    compareText(c, "globals", m.globals, dumpGlobals(h.vm, p.userGlobals()));
}

void finish(pbt::Case &c, Host &h) {
    h.destroy();
    if(h.boxTrouble.size()) c.failStr(h.boxTrouble);
    if(h.boxesMade != h.boxesCleaned) c.fail("%lld native payloads attached, %lld cleaned up", (long long)h.boxesMade, (long long)h.boxesCleaned);
    if(h.libInits != h.libCleanups) c.fail("%d subsystems registered, %d cleanups ran", h.libInits, h.libCleanups);
    if(h.alloc->live) c.fail("%llu blocks (%llu bytes) not given back by VM deletion", (unsigned long long)h.alloc->live, (unsigned long long)h.alloc->cur);
}
