// C26: the command-line interpreter reports faithfully what the library does.
#include "drive.h"
#include <cstring>
#include <cstdlib>
#include <fcntl.h>
#include <spawn.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <unistd.h>
#include <dirent.h>
using namespace lang;

namespace {
std::string interpreter;

// ---- what the library does, with the interpreter's functions ----
struct Session { std::string out; std::map<std::string, std::string> files; };
Session *of(NKVM *vm) { return (Session *)nkxGetUserData(vm); }
void fPrint(NKVMFunctionCallbackData *d) { for(uint32_t i = 0; i < d->argumentCount; i++) { const char *s = nkxValueToString(d->vm, &d->arguments[i]); of(d->vm)->out += s ? s : ""; } }
void fAscii(NKVMFunctionCallbackData *d) {
    std::string s = nkxValueToString(d->vm, &d->arguments[0]); int i = d->arguments[1].intData;
    if(i < 0 || i >= (int)s.size()) { nkxAddError(d->vm, "String ASCII index out of range!"); return; }
    nkxValueSetString(d->vm, &d->returnValue, s.substr(i, 1).c_str());
}
void fLength(NKVMFunctionCallbackData *d) { nkxValueSetInt(d->vm, &d->returnValue, (int)strlen(nkxValueToString(d->vm, &d->arguments[0]))); }
void fLoad(NKVMFunctionCallbackData *d) {
    auto &f = of(d->vm)->files; auto it = f.find(nkxValueToString(d->vm, &d->arguments[0]));
    if(it == f.end()) { nkxAddError(d->vm, "Cannot open file."); return; }
    nkxValueSetString(d->vm, &d->returnValue, it->second.c_str());
}
struct Lib {
    NKVM *vm; NKCompilerState *cs; uint64_t left = RUN_CAP; Session *s;
    explicit Lib(Session &ss) : s(&ss) {
        vm = nkxVmCreate(); nkxSetUserData(vm, s); cs = nkxCompilerCreate(vm);
        nkxVmSetupExternalFunction(vm, cs, "print", fPrint, nktrue, NK_INVALID_VALUE);
        nkxVmSetupExternalFunction(vm, cs, "stringGetASCII", fAscii, nktrue, 2, NK_VALUETYPE_STRING, NK_VALUETYPE_INT);
        nkxVmSetupExternalFunction(vm, cs, "stringGetLengthASCII", fLength, nktrue, 1, NK_VALUETYPE_STRING);
        nkxVmSetupExternalFunction(vm, cs, "loadFile", fLoad, nktrue, 1, NK_VALUETYPE_STRING);
    }
    ~Lib() { if(cs) nkxCompilerFinalize(cs); nkxVmDelete(vm); }
    bool errors() { return nkxVmHasErrors(vm); }
    std::string errorText() { std::vector<char> b(nkxGetErrorLength(vm) + 1, 0); nkxGetErrorText(vm, b.data()); return b.data(); }
    // False: too long for this check.
    bool run() { while(!errors() && !nkxVmProgramHasEnded(vm)) { if(!left) return false; uint32_t n = left > 4096 ? 4096 : (uint32_t)left; nkxVmIterate(vm, n); left -= n; } return s->out.size() < 4000000; }
};
struct Expected { std::string out, err; int status = 0; };
std::string report(const std::string &t) { return "error:\n" + t + "\n"; }
bool expectFile(const std::string &text, const std::string &name, Session &s, Expected &e) {
    Lib l(s); nkxCompilerCompileScript(l.cs, text.c_str(), name.c_str()); nkxCompilerFinalize(l.cs); l.cs = nullptr;
    if(!l.errors() && !l.run()) return false;
    e.out = s.out; e.status = l.errors(); if(e.status) e.err = report(l.errorText());
    return true;
}
// Every input leaves a working session behind: one that does not compile changes nothing, one that fails
// later has had the effects up to there.
bool expectSession(const std::vector<std::string> &lines, Session &s, Expected &e) {
    Lib l(s);
    for(auto &t : lines) {
        s.out += "\n>>> "; uint32_t index = nkxCompilerGetInstructionWriteIndex(l.cs);
        nkxCompilerCompileScript(l.cs, t.c_str(), "<stdin>");
        if(!l.errors()) { nkxCompilerPartiallyFinalize(l.cs); index = nkxCompilerGetInstructionWriteIndex(l.cs); if(!l.run()) return false; }
        if(l.errors()) { e.err += report(l.errorText()); nkxCompilerClearReplErrorState(l.cs, index); }
    }
    s.out += "\n>>> \n"; e.out = s.out; e.status = 0; return true;
}

// ---- the interpreter ----
struct Scratch {
    std::string dir;
    Scratch() { const char *b = getenv("VERIF_BUILD"); dir = (b ? std::string(b) : "build") + "/c26-XXXXXX"; std::vector<char> t(dir.begin(), dir.end()); t.push_back(0); if(!mkdtemp(t.data())) { perror("mkdtemp"); abort(); } dir = t.data(); }
    ~Scratch() { empty(dir); rmdir(dir.c_str()); }
    static void empty(const std::string &d) { if(DIR *p = opendir(d.c_str())) { while(dirent *e = readdir(p)) { std::string n = e->d_name; if(n == "." || n == "..") continue; n = d + "/" + n; struct stat st; if(!lstat(n.c_str(), &st) && S_ISDIR(st.st_mode)) { empty(n); rmdir(n.c_str()); } else unlink(n.c_str()); } closedir(p); } }
    void put(const std::string &n, const std::string &t) { FILE *f = fopen((dir + "/" + n).c_str(), "wb"); if(!f) { perror("fopen"); abort(); } fwrite(t.data(), 1, t.size(), f); fclose(f); }
    std::string get(const std::string &n) { std::string r; FILE *f = fopen((dir + "/" + n).c_str(), "rb"); if(f) { char b[65536]; size_t k; while((k = fread(b, 1, sizeof b, f)) > 0) r.append(b, k); fclose(f); } return r; }
};
struct Result { std::string out, err; int status = 0; bool crashed = false; };
Result launch(Scratch &d, const std::vector<std::string> &args, const std::string &input, long refuseAbove = 0) {
    d.put("_in", input);
    std::vector<std::string> env{"ASAN_OPTIONS=detect_leaks=0:exitcode=99:allocator_may_return_null=1", "UBSAN_OPTIONS=exitcode=99:print_stacktrace=1", "PATH=/usr/bin:/bin"}; if(refuseAbove) env.push_back("NK_REFUSE_ABOVE=" + std::to_string(refuseAbove));
    std::vector<char *> av{(char *)"ninkasi"}, ev; for(auto &a : args) av.push_back((char *)a.c_str()); av.push_back(nullptr); for(auto &e : env) ev.push_back((char *)e.c_str()); ev.push_back(nullptr);
    pid_t pid = fork();
    if(pid == 0) {
        if(chdir(d.dir.c_str())) _exit(97);
        int i = open("_in", O_RDONLY), o = open("_out", O_CREAT | O_WRONLY | O_TRUNC, 0600), e = open("_err", O_CREAT | O_WRONLY | O_TRUNC, 0600);
        dup2(i, 0); dup2(o, 1); dup2(e, 2); alarm(30);
        execve(interpreter.c_str(), av.data(), ev.data()); _exit(98);
    }
    int st = 0; waitpid(pid, &st, 0);
    Result r; r.out = d.get("_out"); r.err = d.get("_err"); r.crashed = !WIFEXITED(st) || WEXITSTATUS(st) >= 97; r.status = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
    return r;
}
void compare(pbt::Case &c, const Result &r, const Expected &e) {
    if(r.crashed) c.failStr("the interpreter crashed (status " + std::to_string(r.status) + "):\n" + r.err.substr(0, 3000));
    if(r.out != e.out) c.appendDescription("\n--- standard error: " + r.err.substr(0, 1000));
    compareText(c, "standard output", e.out, r.out);
    compareText(c, "standard error", e.err, r.err);
    if(r.status != e.status) c.fail("exit status %d, expected %d", r.status, e.status);
}

// ---- scripts: generated programs, with the host functions they use written in the language ----
std::string hostFunctions(Program &p) {
    std::map<std::string, std::pair<int, int>> used;     // name -> native, arguments
    auto use = [&](Expr *v, int n) { std::string name = std::string(nativeNames[v->slot]) + "_" + std::to_string(n); used[name] = {v->slot, n}; v->s = name; };
    std::set<Expr *> done;
    for(auto &e : p.exprs) if(e->k == EK::Call && e->kids[0]->k == EK::Var && e->kids[0]->global && e->kids[0]->slot < N_COUNT) { use(e->kids[0], (int)e->kids.size() - 1); done.insert(e->kids[0]); }
    for(auto &e : p.exprs) if(e->k == EK::Var && e->global && e->slot < N_COUNT && !done.count(e.get())) use(e.get(), 1);
    std::string t;
    for(auto &[name, u] : used) {
        t += "function " + name + "("; for(int i = 0; i < u.second; i++) t += (i ? ", a" : "a") + std::to_string(i); t += ") { ";
        auto show = [&] { t += std::string("print(\"") + nativeNames[u.first] + "\""; for(int i = 0; i < u.second; i++) t += ", \" \", a" + std::to_string(i); t += ", \"\\n\"); "; };
        int n = u.second;
        switch(u.first) {
            case N_ID: if(n == 1) t += "return a0; "; break;
            case N_CALL: if(n) { t += "return a0("; for(int i = 1; i < n; i++) t += (i > 1 ? ", a" : "a") + std::to_string(i); t += "); "; } break;
            case N_ERR: t += "return nil.x; "; break;
            case N_SUM: if(n == 2) t += "return a0 + a1; "; break;
            case N_BOX: if(n == 1) t += "var o = object(); o.v = a0; return o; "; break;
            case N_UNBOX: if(n == 1) t += "return a0.v; "; break;
            case N_REBOX: if(n == 2) t += "a0.v = a1; "; break;
            case N_HOLD: if(n == 1) t += "return a0; "; break;
            case N_HELD: if(n == 1) t += "return a0; "; break;
            case N_STR: if(n == 1) t += "return \"\" + a0; "; break;
            case N_TAG: show(); if(n == 2) t += "return a1; "; break;
            default: show();
        }
        t += "}\n";
    }
    return t;
}
const std::vector<const char *> own{"print(\"plain\\n\");", "print(stringGetASCII(\"hello\", 1), stringGetLengthASCII(\"four\"), \"\\n\");", "print(loadFile(\"data.txt\"), stringGetLengthASCII(loadFile(\"data.txt\")));", "print(loadFile(\"empty\"), \"|\");", "print(loadFile(\"lines\"));", "print();", "print(1, 2.5, \"x\", nil, \"\\n\");", "print(\"100%s %d %n\\n\");", "var ch = 0; while(ch < stringGetLengthASCII(\"word\")) { print(stringGetASCII(\"word\", ch)); ch = ch + 1; }", "print(print(\"\"));", "print(\"tab\\tquote\\\"back\\\\slash\\n\");", "print(coroutine(function() { return 1; }) == nil);"};
const std::vector<const char *> ownBad{"stringGetASCII(\"abc\", 3);", "stringGetASCII(\"abc\", 0 - 1);", "stringGetASCII(\"\", 0);", "stringGetASCII(5, 0);", "stringGetLengthASCII(5);", "loadFile(\"missing\");", "loadFile(\".\");", "loadFile(5);", "stringGetASCII(\"a\");", "out(1);", "print(1"};
void fillFiles(pbt::Case &c, Scratch &d, Session &s) {
    s.files["data.txt"] = std::string(c.g.below(c.g.chance(1, 3) ? 3000 : 40), 'd') + "\n"; s.files["empty"] = ""; s.files["lines"] = "one\ntwo\r\nthree";
    for(auto &f : s.files) d.put(f.first, f.second);
}
void generateScript(pbt::Case &c, Program &p) {
    GenOpts o; o.stmts = 2 + c.size / 5; o.coroutines = c.g.chance(1, 2); o.wildAllowed = c.g.chance(1, 2); o.nativeErrors = c.g.chance(1, 3);
    generate(p, c.g, o); if(c.g.chance(1, 3)) plantFailures(p, c.g, 1 + c.g.below(3));
}

void file(pbt::Case &c) {
    Program p; generateScript(c, p); std::string head = hostFunctions(p);
    PrintOpts po; if(c.g.chance(1, 2)) po.layout = &c.g;
    std::vector<std::string> parts = printPieces(p, po); parts.insert(parts.begin(), head);
    int n = c.g.below(4); for(int i = 0; i < n; i++) parts.insert(parts.begin() + 1 + c.g.below((uint32_t)parts.size()), std::string(c.g.chance(1, 6) ? c.g.pick(ownBad) : c.g.pick(own)) + "\n");
    std::string text; for(auto &t : parts) text += t;
    switch(c.g.below(12)) {
        case 0: { size_t at = c.g.below((uint32_t)text.size()); text.erase(at, 1 + c.g.below(5)); c.label("damaged scripts"); break; }
        case 1: { std::string s = c.g.pick(illFormed); parts.insert(parts.begin() + c.g.below((uint32_t)parts.size() + 1), s + "\n"); text.clear(); for(auto &t : parts) text += t; break; }
        case 2: while(text.size() && text.back() == '\n') text.pop_back(); break;
        case 3: { size_t want = 250 + c.g.below(12); if(c.g.chance(1, 2)) want *= 2; text = c.g.pick(own); text += "\n//"; while(text.size() < want) text += 'x'; if(c.g.chance(1, 2)) { text.pop_back(); text += "\n"; } break; }   // around the size of the read buffer
        case 4: if(c.g.chance(1, 4)) text = ""; break;
        default: break;
    }
    static const std::vector<std::string> fnames{"script.nks", "x", "with blank.nks", "sub/deep.nks", "./s.nks", "noext", "unicode-\xc3\xa9.nks", "dots..nks"};
    std::string name = c.g.pick(fnames);
    Scratch d; mkdir((d.dir + "/sub").c_str(), 0700); Session s; fillFiles(c, d, s); d.put(name, text);
    c.describe(name + ":\n" + text);
    Expected e; if(!expectFile(text, name, s, e)) c.discard("too long");
    Result r = launch(d, {name}, c.g.chance(1, 2) ? "" : "print(\"never\");\n");
    compare(c, r, e);
    c.label(e.status ? "scripts ending in an error" : "scripts that work"); if(e.out.size() || e.err.size()) c.nontrivial(pbt::hashStr(text));
}

void interactive(pbt::Case &c) {
    Program p; generateScript(c, p); std::string head = hostFunctions(p); Scratch d; Session s; fillFiles(c, d, s);
    PrintOpts po; po.layout = &c.g; po.oneLine = true; po.comments = false;
    std::vector<std::string> parts = printPieces(p, po), lines;
    size_t at = 0; while(at < head.size()) { size_t e = head.find('\n', at); lines.push_back(head.substr(at, e - at + 1)); at = e + 1; }
    for(size_t i = 0; i < parts.size();) {
        std::string l; int n = 1 + c.g.below(c.g.chance(2, 3) ? 1 : 4);
        while(n-- && i < parts.size()) { std::string t = parts[i++]; while(t.size() && (t.back() == '\n' || t.back() == '\r')) t.pop_back(); if(t.find('\n') != std::string::npos) c.discard("piece of several lines"); l += t + " "; }
        while(c.g.chance(1, 5)) {
            std::string b; switch(c.g.below(6)) { case 0: b = c.g.pick(illFormed); break; case 1: b = l + ")"; break; case 2: b = c.g.pick(ownBad); break; case 3: b = l + " nil.x; "; break; case 4: b = "function later() { return 7; } nil.x;"; lines.push_back(b + "\n"); b = "print(later(), \"\\n\");"; break; default: b = "if(1) { print(\"in\"); nil.x; }"; }
            if(b.find("\"text;") != std::string::npos) b = "1 = 2;";
            lines.push_back(b + "\n"); if(c.g.chance(1, 2)) c.label("bad inputs");
        }
        if(c.g.chance(1, 5)) lines.push_back(std::string(c.g.pick(own)) + "\n"); if(c.g.chance(1, 10)) lines.push_back("\n"); if(c.g.chance(1, 10)) lines.push_back("print(\"" + std::string(240 + c.g.below(600), 'l') + "\");\n");
        l += c.g.chance(1, 10) ? "\r\n" : "\n"; lines.push_back(l);
    }
    if(c.g.chance(1, 4)) lines.back().pop_back(); if(lines.back().empty()) lines.pop_back();
    std::string input; for(auto &l : lines) input += l; c.describe(input);
    Expected e; if(!expectSession(lines, s, e)) c.discard("too long");
    Result r = launch(d, {}, input); compare(c, r, e);
    c.label("sessions"); c.label("inputs", lines.size()); size_t bad = 0; for(size_t q = 0; (q = e.err.find("error:\n", q)) != std::string::npos; q += 7) bad++; c.label("inputs reported as errors", bad);
    c.nontrivial(pbt::hashStr(input));
}

void memory(pbt::Case &c) {
    static const std::vector<const char *> eaters{"var s = \"xy\"; while(1) { s = s + s; }", "var a = object(); while(1) { var b = object(); b.next = a; a = b; }", "function f(x) { return f(x) + 1; } f(1);", "var s = \"\"; var i = 0; while(1) { s = s + i + \",\"; i = i + 1; }"};
    std::string eater = c.g.pick(eaters); long limit = 8192l << c.g.below(6); bool repl = c.g.chance(1, 2); Scratch d;
    std::string before = "print(\"before\\n\");\n", after = "print(\"after\\n\");\n", text = before + eater + "\n" + after;
    c.describe(text); Result r = launch(d, repl ? std::vector<std::string>{} : std::vector<std::string>{"eater.nks"}, repl ? text : (d.put("eater.nks", text), ""), limit);
    if(r.crashed) c.failStr("the interpreter crashed when memory ran out:\n" + r.err.substr(0, 3000));
    bool recursion = eater.find("function f") == 0;
    if(r.err.find("error:") == std::string::npos) c.failStr("no error was reported");
    if(!recursion && r.err.find("Allocation failure") == std::string::npos) c.failStr("running out of memory was not reported:\n" + r.err);
    bool failed = r.err.find("Allocation failure") != std::string::npos;
    if(failed || !repl) { if(r.status != 1) c.fail("exit status %d after an error", r.status); if(r.out.find("after") != std::string::npos) c.failStr("the script went on"); }
    else { if(r.out.find("after") == std::string::npos) c.failStr("the session did not go on"); }
    if(r.out.find("before") == std::string::npos) c.failStr("output before the error is missing");
    c.label("out of memory"); c.nontrivial(pbt::hashStr(text, (uint64_t)limit * 2 + repl));
}
void usage(pbt::Case &c) {
    Scratch d; d.put("a.nks", "print(\"a\");"); d.put("b.nks", "print(\"b\");"); mkdir((d.dir + "/dir").c_str(), 0700);
    static const std::vector<std::vector<std::string>> wrong{{"missing.nks"}, {"dir"}, {"-x"}, {"a.nks", "b.nks"}, {"a.nks", "--nonsense"}, {"--nonsense", "a.nks"}, {""}, {"a.nks/b"}, {"-"}};
    auto a = c.g.pick(wrong); std::string t; for(auto &x : a) t += " '" + x + "'"; c.describe(t);
    Result r = launch(d, a, ""); if(r.crashed) c.failStr("the interpreter crashed:\n" + r.err); if(r.status != 1 || r.err.compare(0, 6, "error:") || r.out.size()) c.failStr("misuse must be reported and nothing run; exit status " + std::to_string(r.status) + "\n" + r.out + r.err);
    c.label("misuse"); c.nontrivial(pbt::hashStr(t));
}
}

int main(int argc, char **argv) {
    char self[4096]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1); interpreter = std::string(self, n > 0 ? n : 0) + ".ninkasi";
    pbt::Property P;
    P.id = "C26";
    P.rule = "Random programs (a third with failing statements planted) whose host functions are written in the language itself on top of the interpreter's print, plus calls of the interpreter's other functions, right and wrong; run by the real executable (built with sanitizers) in a scratch directory: as a script file (random layout, names, damaged and empty files, sizes around the read buffer), or line by line on standard input with mistakes in between, which must not lose what went before. The library embedded in the check with its own versions of those functions says what standard output, standard error and the exit status must be. Also scripts that run out of memory (big blocks refused at several sizes), and misuse of the command line. Non-trivial: the run printed or reported something; distinct by text.";
    P.assumptions = {"the harness's own loop for interactive input states what recovery means: nothing of an input that does not compile, everything up to the error of one that fails"};
    P.quickCases = 8000; P.thoroughCases = 400000; P.quickWall = 28; P.thoroughWall = 700; P.caseCpu = 60;
    P.run = [](pbt::Case &c) { switch(c.g.weighted({8, 8, 1, 1})) { case 0: file(c); break; case 1: interactive(c); break; case 2: memory(c); break; default: usage(c); } };
    return pbt::main(P, argc, argv);
}
