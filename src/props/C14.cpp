// C14: handles keep objects alive, are counted, and let go.
#include "graph.h"

int main(int argc, char **argv) {
    pbt::Property P;
    P.id = "C14";
    P.rule = "Histories of 10-220 steps over a graph of plain, typed and coroutine objects, built by script and host (create, link, unlink, globals, data that refers to or holds other objects), rich in acquiring and releasing handles, with forced and automatic collections and saving/loading anywhere. A model knows counts and reachability: after steps every object certainly alive must have the model's count, fields, type and data; after a collection exactly the unreachable typed objects have been cleaned up. Some histories end with a release that has no acquisition (on an object with zero handles, or of a value that is not an object): it must be reported as an error and change nothing, and the object must survive or go by reachability alone. Non-trivial: at least one collection after which an object was alive only through a handle, and one object reclaimed; distinct by history.";
    P.assumptions = {"object values are used by the host only while the objects are reachable"};
    P.quickCases = 80000; P.thoroughCases = 800000; P.quickWall = 28; P.thoroughWall = 700;
    P.run = [](pbt::Case &c) {
        GraphOpts o; o.handleWeight = 8; o.nodesMax = 10 + c.size / 2; o.saves = c.g.chance(2, 3); o.coroutines = c.g.chance(1, 2);
        Graph g(c, o);
        bool autoGc = c.g.chance(2, 3);
        g.start(autoGc ? 1 + c.g.below(30) : 1u << 20, 1 + c.g.below(autoGc ? 10 : 1000));
        int n = 10 + c.g.below(10 + 2 * c.size); bool onlyHandle = false;
        for(int i = 0; i < n; i++) {
            uint64_t before = g.collections; g.op();
            if(g.collections != before && !onlyHandle) { // alive only through a handle?
                std::set<Graph::Node *> all = g.reachable(false), without; std::vector<uint32_t> saved; for(auto &x : g.nodes) { saved.push_back(x->handles); x->handles = 0; }
                without = g.reachable(false); for(size_t k = 0; k < g.nodes.size(); k++) g.nodes[k]->handles = saved[k];
                if(without.size() < all.size()) onlyHandle = true;
            }
        }
        g.checkAlive();
        if(c.g.chance(1, 4)) {
            std::vector<Graph::Node *> zero; for(auto x : g.usable()) if(!x->handles) zero.push_back(x);
            if(zero.size()) {
                Graph::Node *x = zero[c.g.below((uint32_t)zero.size())]; g.note("release #" + std::to_string(x->id) + " which has no handle");
                NKValue v = x->v; nkxVmObjectReleaseHandle(g.h->vm, &v);
                c.label("release without acquisition");
                if(!g.h->hasErrors()) c.fail("releasing an object that has no handle was not reported");
                if(nkxVmObjectGetExternalHandleCount(g.h->vm, &v) != 0) c.fail("releasing an object that has no handle changed its count to %u", nkxVmObjectGetExternalHandleCount(g.h->vm, &v));
                if(nkxGetErrorCount(g.h->vm) != 1) c.fail("one wrong release was reported as %u errors", nkxGetErrorCount(g.h->vm));
                // Unreachable now: it must go, whatever the release did.
                if(c.g.chance(1, 2) && x->p) {
                    for(int k = 0; k < 8; k++) if(g.globals[k].kind == 2) { nkxValueSetInt(g.h->vm, g.global(k), 0); g.globals[k] = Graph::Val(); }
                    bool alive = g.reachable(true).count(x); bool sure = g.reachable(false).count(x);
                    nkxVmGarbageCollect(g.h->vm);
                    if(!alive && !x->p->cleaned) c.fail("after a wrong release the object survives although nothing refers to it");
                    if(sure && x->p->cleaned) c.fail("after a wrong release the object was reclaimed although it is reachable");
                    for(auto p : g.justCleaned) if(p->keep) p->keep->handles--;
                    g.justCleaned.clear();
                }
            }
        } else if(c.g.chance(1, 4)) {
            NKValue v = c.g.chance(1, 2) ? intValue(g.h->vm, 3) : strValue(g.h->vm, "x"); bool acq = c.g.chance(1, 2);
            g.note("handle operation on a value that is not an object");
            acq ? nkxVmObjectAcquireHandle(g.h->vm, &v) : nkxVmObjectReleaseHandle(g.h->vm, &v);
            if(!g.h->hasErrors()) c.fail("%s a handle on a value that is not an object was not reported", acq ? "acquiring" : "releasing");
            c.label("handle on a non-object");
        }
        g.finishAll();
        c.label("collections", g.collections); c.label("reclaimed", g.reclaimed); c.label("steps", g.ops);
        if(onlyHandle && g.reclaimed) c.nontrivial(g.hash);
    };
    return pbt::main(P, argc, argv);
}
