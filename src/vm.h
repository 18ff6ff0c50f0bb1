// The code under test behind its public interface, a tracking allocator, and
// the host environment generated programs run in.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <functional>
#include <map>
#include <set>
extern "C" {
#include "nkx.h"
}

// ---- allocator -----------------------------------------------------------
struct Alloc {
    static const uint64_t LIVE = 0xA110CA7EDB10C001ull, DEAD = 0xDEADB10CDEADB10Cull;
    struct Block { uint64_t magic; Alloc *owner; uint64_t size; Block *prev, *next; uint64_t serial, pad; };
    Block *head = nullptr;
    uint64_t cur = 0, peak = 0, live = 0;   // bytes / blocks outstanding, as asked for
    uint64_t requests = 0;                  // so far
    uint64_t failed = 0;                    // refused
    uint64_t firstSize = 0;                 // size of the first request: the VM itself
    int64_t failAt = -1;                    // refuse request number failAt (0-based)
    int64_t failUntil = -1;                 // ... through failUntil (exclusive); -1: just one
    bool persistent = false;                // refuse everything from failAt on
    std::string trouble;                    // first misuse seen (foreign free, double free, bad user data)
    std::vector<uint64_t> sizesWanted;      // log of sizes, if logSizes
    bool logSizes = false;
    std::function<void()> onGet;            // called at the start of every request
    int fill = 0xbe;                        // what new blocks contain
    void *get(uint64_t size);
    void put(void *p);
    void releaseAll();                      // after a failed case
    ~Alloc() { releaseAll(); }
    static void *cbMalloc(nkuint32_t size, void *ud);
    static void cbFree(void *p, void *ud);
};

// ---- host -----------------------------------------------------------------
struct NativeDef { const char *name; NKVMFunctionCallback fn; };

struct Host {
    Alloc *alloc = nullptr;
    Alloc ownAlloc;
    NKVM *vm = nullptr;
    NKCompilerState *cs = nullptr;
    std::string log;                 // what the program did, one line per host call
    uint64_t outCount = 0;
    uint64_t maxLog = 1u << 18;
    // Hooks called inside host functions.
    std::function<void(Host &, const char *)> onNative;
    int callDepth = 0;
    void *extra = nullptr;           // for the property
    bool loggingFrozen = false;
    std::vector<NativeDef> extraNatives;              // registered after the standard ones
    uint32_t nativeOrder = 0;                         // not 0: natives are registered in an order of its own
    std::function<void(Host &, NKCompilerState *)> setup; // types, subsystems, limits: called by create / createVmOnly
    std::map<int32_t, NKValue> slots;                 // objects held through handles (hold, held, drop)
    int32_t nextHold = 1;
    NKVMExternalDataTypeID boxType{NK_INVALID_VALUE}; // native objects referring to a value
    int64_t boxesMade = 0, boxesCleaned = 0;
    std::string boxTrouble;
    bool forced = false;                              // the host asked for a catastrophic failure
    bool hostile = false;                             // an image may name the box type for an object without its data
    bool disposeEarly = false;                        // the subsystem disposes of all boxes, whatever comes after
    int libInits = 0, libCleanups = 0;                // of the subsystem that owns the boxes
    void takeOver(Host &from);                        // host-side state when continuing from an image

    Host() { alloc = &ownAlloc; }
    explicit Host(Alloc *a) { alloc = a; }
    Host(const Host &) = delete;
    ~Host() { destroy(); }

    bool create();                   // VM and compiler (nullptrs on failure)
    bool createVmOnly();             // for loading an image: same natives, no compiler
    void destroy();
    bool start();                    // runs setup and registers natives on a bare vm (cs may be null)
    bool compile(const std::string &text, const char *file = "main.nks");
    void finalize();                 // ends compilation
    bool hasErrors() { return nkxVmHasErrors(vm); }
    std::string errorText();
    // Runs to the end of program, an error, or maxInstr instructions. False if it did not end.
    bool run(uint64_t maxInstr = 20000000);
    void line(const std::string &s) { if(vm && nkxVmHasAllocationFailure(vm)) return; if(!loggingFrozen && log.size() < maxLog) { log += s; log += '\n'; } }
};

// Functions every generated program can use. Registered in this order.
extern const std::vector<NativeDef> stdNatives;
void registerNatives(Host &h, NKCompilerState *cs);

inline Host *hostOf(NKVM *vm) { return (Host *)nkxGetUserData(vm); }

// One value, shallow: objects as obj(size).
std::string showValue(NKVM *vm, const NKValue *v);
// Deep: objects by identity and their fields over a fixed set of keys.
struct Dumper {
    NKVM *vm; std::map<unsigned, int> ids; int next = 0; int depthMax = 6;
    explicit Dumper(NKVM *v) : vm(v) {}
    std::string dump(const NKValue *v, int depth = 0);
};
// All keys probed by the deep dump, in order (shared with the model).
struct ProbeKey { int kind; int i; float f; const char *s; }; // kind 0 int 1 float 2 string
extern const std::vector<ProbeKey> probeKeys;
std::string showFloat(float f);
std::string showStr(const std::string &s);
std::string dumpGlobals(NKVM *vm, const std::vector<std::string> &names);

std::string quoteForLog(const char *s);

// ---- images ---------------------------------------------------------------
struct Image { std::string data; size_t pos = 0; int64_t failAtCall = -1; int64_t calls = 0; int64_t callsAfterFailure = 0; bool failedOnce = false; std::vector<uint32_t> *cuts = nullptr; };
nkbool imageWriter(void *data, nkuint32_t size, void *ud, nkbool writeMode);
bool saveImage(NKVM *vm, Image &img);
bool loadImage(NKVM *vm, Image &img);   // from the beginning

inline NKValue nilValue() { NKValue v; __builtin_memset(&v, 0, sizeof v); v.type = NK_VALUETYPE_NIL; return v; }
inline NKValue intValue(NKVM *vm, int i) { NKValue v = nilValue(); nkxValueSetInt(vm, &v, i); return v; }
inline NKValue floatValue(NKVM *vm, float i) { NKValue v = nilValue(); nkxValueSetFloat(vm, &v, i); return v; }
inline NKValue strValue(NKVM *vm, const char *s) { NKValue v = nilValue(); nkxValueSetString(vm, &v, s); return v; }
