// Histories over an object graph built by script and host, against a model of
// what is reachable. Used by the checks of garbage, handles and external types.
#pragma once
#include "drive.h"
#include <set>

struct GraphOpts { bool handles = true, coroutines = true, payloads = true, saves = true, autoGc = true; int nodesMax = 60; uint32_t handleWeight = 3; };

struct Graph {
    struct Node;
    struct Payload { uint64_t magic; Graph *owner; int node; int type; Node *ref = nullptr, *keep = nullptr; int cleaned = 0; bool current = true; int generation = 0; NKValue refV, keepV; };
    struct Val { Node *n = nullptr; int i = 0; std::string s; int kind = 0; };      // kind 0 int, 1 string, 2 node, 3 nil
    struct Node { int id; NKValue v; std::map<std::string, std::pair<Val, Val>> fields; int type = -1; Payload *p = nullptr; uint32_t handles = 0; bool co = false; int coRuns = 0; Node *a = nullptr, *b = nullptr; bool gone = false; int bareCleanups = 0; };
    static const int TYPES = 3;
    static const uint64_t LIVE = 0x9a71a0ad00000001ull;

    pbt::Case &c; GraphOpts o;
    std::unique_ptr<Host> h; Alloc alloc;
    std::vector<std::unique_ptr<Node>> nodes; std::vector<std::unique_ptr<Payload>> payloads;
    std::vector<Val> globals{8};
    NKVMExternalDataTypeID types[TYPES];
    std::vector<Payload *> justCleaned; std::vector<Node *> justCleanedBare; std::string trouble; bool saving = false, deleting = false; int generation = 0;
    uint64_t collections = 0, reclaimed = 0, ops = 0, cleanups = 0; uint64_t hash = 7; std::string history;
    std::string pendingLoadBytes;
    bool stopped = false;

    explicit Graph(pbt::Case &cc, const GraphOpts &oo) : c(cc), o(oo) {}
    static const char *script();
    void start(uint32_t gcInterval, uint32_t newObjInterval);
    void note(const std::string &s) { history += "\n" + s; if(history.size() > 12000) history.erase(0, 4000); c.describe(history); hash = pbt::hashStr(s, hash); }

    // Model.
    std::set<Node *> reachable(bool generous);      // generous: finished coroutines still refer to what they held
    std::vector<Node *> usable();                   // certainly alive
    Node *pickNode(bool wantPlain = false);
    Val randomVal();
    Val randomKey();
    NKValue toValue(const Val &v);
    std::string keyName(const Val &v);

    // Steps. Each picks its operands.
    void createObject(); void link(); void unlink(); void setGlobal(); void acquire(); void release(); void attach(); void retarget(); void makeCoroutine(); void resumeCoroutine(); void junk(); void collect(); void saveLoad(); void clearGlobal(); void enumerateTypes();
    void op();
    void checkAlive();               // contents of everything certainly alive
    void afterOp(bool collected);    // cleanups seen against the model
    void finishAll();                // delete the VM, every payload cleaned up once
    NKValue callFn(const char *name, std::vector<NKValue> args);
    NKValue *global(int i);
    void place(Node *n);             // give a new node somewhere to live
    Node *addNode(const NKValue &v);
    [[noreturn]] void fail(const std::string &s) { c.failStr(s); }
};
