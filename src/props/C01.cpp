// C01: programs compute what the reference interpreter says.
#include "pbt.h"
#include "vm.h"
#include "lang.h"
#include "common.h"
using namespace lang;

int main(int argc, char **argv) {
    pbt::Property P;
    P.id = "C01";
    P.rule = "A random type-guided program (functions, objects, loops, recursion, callable objects, coroutines, strings, floats, deliberate ill-typed operations in a third of them) printed with random layout, compiled and run under ASan/UBSan, compared with the reference interpreter (host-call log, final globals, error or not). Non-trivial: not discarded by the model, at least 3 host calls logged, at least 100 model steps; distinct by program text.";
    P.assumptions = {"the reference interpreter's rules were read from the code and documentation and are trusted", "text of functions and objects, ordering of functions and objects, and NaN keys are left out (discarded)"};
    P.quickCases = 40000; P.thoroughCases = 1500000;
    P.quickWall = 25; P.thoroughWall = 800;
    P.run = [](pbt::Case &c) {
        Program p; GenOpts o; o.stmts = 2 + c.size / 4; o.coroutines = c.g.chance(1, 3);
        generate(p, c.g, o);
        PrintOpts po; bool layout = c.g.chance(2, 3);
        if(layout) { po.layout = &c.g; po.extraParens = c.g.chance(1, 2); po.oneLine = c.g.chance(1, 5); }
        std::string text = print(p, po);
        c.describe(text);
        Model m; m.run(p);
        if(m.discarded) c.discard(m.why);
        Host h; std::string globals;
        std::string e = compileAndRun(h, text, c.g.below(2) ? 0 : 1 + c.g.below(2000));
        if(e.size()) c.failStr(e);
        compareWithModel(c, h, m, p);
        for(auto &f : m.features) c.label(f.first.c_str());
        if(m.error) c.label("ends with an error"); else c.label("ends normally");
        if(m.steps >= 100 && h.outCount >= 3) c.nontrivial(pbt::hashStr(text));
        finish(c, h);
    };
    return pbt::main(P, argc, argv);
}
