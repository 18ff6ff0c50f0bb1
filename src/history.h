// Random histories of API use, executed with observers and injected allocation failures.
#pragma once
#include "drive.h"
#include <memory>
#include <functional>

struct HOp { int kind; uint32_t a = 0, b = 0, c = 0; std::string text; bool takesOver() const; };
// What is done to a VM from its creation to its deletion. The same history makes the same requests to
// the allocator each time it is executed.
struct History {
    std::vector<HOp> ops; std::string description; std::vector<std::string> functions, globals;
    uint32_t gcInterval = 1024, gcObjects = 256;
    size_t features = 0;
};
void generateHistory(pbt::Case &c, History &h, int size, bool memoryLimits);

struct HistoryRun {
    const History &h;
    std::vector<std::unique_ptr<Alloc>> allocs;          // one per VM, in order of creation
    std::vector<std::unique_ptr<Host>> hosts;            // the same
    std::function<void(Alloc &, size_t)> prepareAlloc;   // when a VM is about to be created
    std::function<void(HistoryRun &, size_t, const char *)> after;   // after every step (also creation and deletion)
    std::function<void(HistoryRun &, Host &, const char *)> inNative; // on entry of host functions
    std::function<void(HistoryRun &, Host &, uint32_t)> memoryLimit;  // instead of setting it
    std::function<void(HistoryRun &, Host &, const char *)> inCallback;   // in reader/writer callbacks, GC and cleanup callbacks
    bool disposeEarly = false;
    size_t at = 0; const char *step = "";
    Host *cur = nullptr;
    uint64_t errorOps = 0, loads = 0, saves = 0, nativesEntered = 0;
    explicit HistoryRun(const History &hh) : h(hh) {}
    void run();                 // everything, deletion included
    uint64_t subsystemsMissing() const;   // initialised ones minus cleaned up ones
    std::string text;           // results of lookups, to compare runs
private:
    std::vector<NKValue> objs; std::vector<void *> mem; Image img; uint32_t writeReset = 0; int types = 0; std::vector<std::function<void(NKVM *)>> again;   // registrations a loading VM needs, too
    Host *make(bool compiler);
    void drop(Host *x);
    void op(const HOp &o);
    void tell() { if(after) after(*this, at, step); }
};
