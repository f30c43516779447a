// Resources of long-running processes: C13. The same work is repeated on a dispatcher which keeps running; once it's
// idle again the amount of live heap blocks, open files and threads must be what it was before.
#include "dispmon.hpp"
#include <dirent.h>
#include <malloc.h>

// ---------------------------------------------------------------- live heap blocks of the whole process
extern "C" {
void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void __libc_free(void*); void* __libc_memalign(size_t, size_t);
}
static std::atomic<long> gBlocks{0};
extern "C" {
void* malloc(size_t n) { void* p = __libc_malloc(n); if (p) gBlocks.fetch_add(1, std::memory_order_relaxed); return p; }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); if (p) gBlocks.fetch_add(1, std::memory_order_relaxed); return p; }
void* realloc(void* o, size_t n) {
    void* p = __libc_realloc(o, n);
    if (!o && p) gBlocks.fetch_add(1, std::memory_order_relaxed);
    if (o && n == 0 && !p) gBlocks.fetch_sub(1, std::memory_order_relaxed);
    return p;
}
void free(void* p) { if (p) { gBlocks.fetch_sub(1, std::memory_order_relaxed); __libc_free(p); } }
void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); if (p) gBlocks.fetch_add(1, std::memory_order_relaxed); return p; }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** o, size_t a, size_t n) { *o = memalign(a, n); return *o ? 0 : ENOMEM; }
}

namespace vh { Result R; std::string gOut = "/dev/null"; }
using namespace vh;

#if defined(DISP_ARDUINO)
constexpr bool SINGLE = true;
#else
constexpr bool SINGLE = false;
#endif
template <class F> static void api(F f) { if (SINGLE) Host::get().onLoop(f); else f(); }

static int one(Rng& r, std::initializer_list<int> l) { return *(l.begin() + r.below((int)l.size())); }
static long countDir(const char* path) {
    long n = 0;
    if (DIR* d = opendir(path)) { while (readdir(d)) ++n; closedir(d); }
    return n;
}

enum { G_GO = 10, G_HIST, G_CHILD, G_FIN, G_DONE, G_REF, G_CHAIN, G_MARK, G_TIMER, G_KEEP, G_NONE };
struct GM {
    std::unique_ptr<HierarchicalStateMachine> hsm;
    std::atomic<long> marks{0}, chain{0}, callbacks{0};
    std::atomic<bool> refuseExit{false};
    int base;
    explicit GM(int timerBase, HistoryType ht) : base(timerBase) {
        hsm.reset(new HierarchicalStateMachine(1));
        auto on = [this](const VariantVector_t&) { callbacks.fetch_add(1); gProgress.fetch_add(1); };
        for (int s : {1, 2, 3, 4})
            hsm->registerState(s, on, [this](const VariantVector_t&) { callbacks.fetch_add(1); return true; }, [this, s]() { return !(s == 3 && refuseExit.exchange(false)); });
        hsm->registerState(6, on, [](const VariantVector_t&) { return false; });
        hsm->registerFinalState(9, G_DONE);
        hsm->registerHistory(2, 5, ht, 4);
        hsm->registerSubstateEntryPoint(2, 3);
        hsm->registerSubstate(2, 4);
        hsm->registerSubstate(2, 9);
        hsm->registerTransition(1, 2, G_GO, on);
        hsm->registerTransition(2, 1, G_GO, on);
        hsm->registerTransition(1, 5, G_HIST, on);
        hsm->registerTransition(3, 4, G_CHILD, on);
        hsm->registerTransition(4, 3, G_CHILD, on);
        hsm->registerTransition(3, 9, G_FIN, on);
        hsm->registerTransition(4, 9, G_FIN, on);
        hsm->registerTransition(2, 1, G_DONE, on);
        hsm->registerTransition(1, 6, G_REF, on);
        for (int s : {1, 2}) {
            hsm->registerSelfTransition(s, G_MARK, TransitionType::INTERNAL_TRANSITION, [this](const VariantVector_t&) { marks.fetch_add(1); gProgress.fetch_add(1); });
            hsm->registerSelfTransition(s, G_KEEP, TransitionType::INTERNAL_TRANSITION, on);
            hsm->registerSelfTransition(s, G_TIMER, TransitionType::INTERNAL_TRANSITION, on);
            hsm->registerSelfTransition(s, G_CHAIN, TransitionType::INTERNAL_TRANSITION, [this](const VariantVector_t& a) {
                chain.fetch_add(1);
                gProgress.fetch_add(1);
                if (!a.empty() && a[0].toInt64() > 0) hsm->transition(G_CHAIN, (int64_t)(a[0].toInt64() - 1), std::string("text which does not fit into a small string"));
            });
        }
        hsm->registerFailedTransitionCallback([this](const std::list<StateID_t>&, const EventID_t, const VariantVector_t&) { callbacks.fetch_add(1); gProgress.fetch_add(1); });
        hsm->registerTimer(base, G_TIMER);
        hsm->registerTimer(base + 1, G_KEEP);
        hsm->registerStateAction(2, StateActionTrigger::ON_STATE_ENTRY, StateAction::START_TIMER, base + 1, 1, true);
        hsm->registerStateAction(2, StateActionTrigger::ON_STATE_EXIT, StateAction::STOP_TIMER, base + 1);
        hsm->registerStateAction(4, StateActionTrigger::ON_STATE_ENTRY, StateAction::TRANSITION, (int)G_KEEP, "argument of the action", 17);
    }
};

static const char* opName[] = {"async", "sync", "timeout", "clear", "actions", "irq", "timers", "machine", "handlers", "dispatcher", "refuse", "query", "log", "chain", "machine-pending", "restart-expired"};
enum { OPS = 16 };

static void caseGrowth(uint64_t seed, long idx) {
    Rng r(seed * 472882027 + (uint64_t)idx);
    Host& H = Host::get();
    std::vector<int> ops;
    if (idx % 2 == 0) ops.push_back((int)((idx / 2) % OPS));
    else { for (int i = 0; i < OPS; ++i) if (r.chance(45)) ops.push_back(i); if (ops.empty()) ops.push_back(0); }
    const int C = 6, K = 4;
    std::string names;
    for (int o : ops) names += std::string(" ") + opName[o];
    uint64_t cycleSeed = r.next();
    HistoryType ht = r.chance(50) ? HistoryType::DEEP : HistoryType::SHALLOW;
    desc("growth disp=" + std::string(DISP_NAME) + " seed=" + std::to_string(seed) + " case=" + std::to_string(idx) + " ops:" + names);
    phase("growth:setup");
    auto disp = H.make();
    std::unique_ptr<GM> A(new GM(100, ht)), B(new GM(200, ht));
    for (GM* m : {A.get(), B.get()}) H.onLoop([&]() { if (!m->hsm->initialize(disp)) fatal("init", "initialize failed"); });
    auto mark = [&](GM& m, IHsmEventDispatcher&) {
        long want = m.marks.load() + 1;
        api([&]() { m.hsm->transition(G_MARK); });
        if (!stuckWait([&]() { return m.marks.load() >= want; })) fatal("hang:growth:mark", "an event was not processed");
    };
    long opsDone = 0;
    auto doOp = [&](int op, Rng& c) {
        phase(std::string("growth:") + opName[op]);
        HierarchicalStateMachine& h = *A->hsm;
        ++opsDone;
        switch (op) {
            case 0: for (int i = 0; i < 8; ++i) { int ev = one(c, {G_GO, G_HIST, G_CHILD, G_FIN, G_NONE, G_KEEP}); api([&]() { h.transition(ev, std::string("some longer text as an argument"), i); }); } break;
            case 1: if (!SINGLE) for (int i = 0; i < 5; ++i) h.transitionEx(one(c, {G_GO, G_HIST, G_CHILD, G_FIN, G_NONE}), false, true, 10000, i); break;
            case 2:
                if (SINGLE) break;
                {
                    auto g = closeGate(disp);
                    for (int i = 0; i < 2; ++i) h.transitionEx(G_KEEP, false, true, 1, i);
                    g->open();
                }
                break;
            case 3: for (int i = 0; i < 4; ++i) api([&]() { h.transition(G_GO, i); h.transition(G_CHILD, i); h.transitionEx(G_KEEP, true, false, 0, i); }); break;
            case 4: {
                auto n = std::make_shared<std::atomic<int>>(0);
                for (int i = 0; i < 6; ++i) api([&]() { disp->enqueueAction([n]() { n->fetch_add(1); gProgress.fetch_add(1); }); });
                if (!stuckWait([n]() { return n->load() >= 6; })) fatal("hang:growth:action", "an action was not executed");
                break;
            }
            case 5: for (int i = 0; i < 6; ++i) api([&]() { h.transitionInterruptSafe(i & 1 ? G_KEEP : G_NONE); }); break;
            case 6:
                for (int i = 0; i < 4; ++i) api([&]() { h.startTimer(100, 1 + i, i & 1); h.restartTimer(100); if (i == 2) h.stopTimer(100); });
                pert::nap(2500);
                api([&]() { h.stopTimer(100); });
                break;
            case 7: {
                std::unique_ptr<GM> m;
                H.onLoop([&]() { m.reset(new GM(300, ht)); m->hsm->initialize(disp); });
                api([&]() { m->hsm->transition(G_GO, 1); m->hsm->startTimer(300, 1, false); });
                mark(*m, *disp);
                onDispatcher(disp, [&]() { if (c.chance(70)) m->hsm->release(); m.reset(); }, "growth:release");
                break;
            }
            case 8: {
                auto n = std::make_shared<std::atomic<int>>(0);
                HandlerID_t e = disp->registerEventHandler([n]() { n->fetch_add(1); gProgress.fetch_add(1); return true; });
                HandlerID_t t = disp->registerTimerHandler([n](const TimerID_t) { n->fetch_add(1); return true; });
                HandlerID_t q = disp->registerEnqueuedEventHandler([n](const EventID_t) { n->fetch_add(1); return true; });
                IHsmEventDispatcher& d = *disp;
                api([&]() { d.emitEvent(e); d.startTimer(t, 401, 1, false); d.startTimer(t, 402, 1, true); d.enqueueEvent(q, 1); });
                if (c.chance(50)) pert::nap(1500);
                api([&]() { d.emitEvent(e); d.unregisterEventHandler(e); d.unregisterTimerHandler(t); d.unregisterEnqueuedEventHandler(q); d.emitEvent(e); });
                break;
            }
            case 9: {
                std::shared_ptr<Disp> d2;
                std::unique_ptr<GM> m;
                H.onLoop([&]() { d2 = H.create(); if (c.chance(80)) { m.reset(new GM(500, ht)); m->hsm->initialize(d2); } else if (c.chance(50)) d2->start(); });
                if (m) api([&]() { m->hsm->transition(G_GO, 1); m->hsm->startTimer(500, 1, false); });
                if (c.chance(50)) pert::nap(600);
                bool stopFirst = c.chance(50), first = c.chance(50);
                H.onLoop([&]() { if (stopFirst) d2->stop(); if (first) m.reset(); });
#if defined(DISP_STD)
                if (stopFirst) d2->join();
#endif
                H.onLoop([&]() { d2.reset(); m.reset(); });
                break;
            }
            case 10: api([&]() { h.transition(G_GO, 1); }); A->refuseExit = true; api([&]() { h.transition(G_CHILD, 1); h.transition(G_GO, 2); h.transition(G_GO, 2); h.transition(G_REF, 3); h.transition(G_GO, 2); h.transition(G_REF, 3); }); break;
            case 11: onDispatcher(disp, [&]() { for (int i = 0; i < 6; ++i) { (void)h.isTransitionPossible(G_GO, std::string("some longer text as an argument"), i); (void)h.getActiveStates(); (void)h.getLastActiveState(); (void)h.isStateActive(3); (void)h.isTimerRunning(100); } }, "growth:query"); break;
            case 12:
#ifdef HSMBUILD_DEBUGGING
                h.enableHsmDebugging("/dev/null");
                api([&]() { h.transition(G_GO, std::string("some longer text as an argument")); h.transition(G_NONE, 1); });
                mark(*A, *disp);
                h.disableHsmDebugging();
#endif
                break;
            case 13: {
                long want = A->chain.load() + 301;
                api([&]() { h.transition(G_CHAIN, (int64_t)300); });
                for (int i = 0; i < 3; ++i) api([&]() { B->hsm->transition(G_KEEP, i); });
                if (!stuckWait([&]() { return A->chain.load() >= want; })) fatal("hang:growth:chain", "events posted from callbacks were not processed");
                break;
            }
            case 14: {      // released with events in its queue
                std::unique_ptr<GM> m;
                H.onLoop([&]() {
                    m.reset(new GM(600, ht)); m->hsm->initialize(disp);
                    for (int i = 0; i < 5; ++i) m->hsm->transition(G_GO, std::string("some longer text as an argument"), i);
                    m->hsm->transitionInterruptSafe(G_KEEP);
                    m->hsm->startTimer(600, 1, c.chance(50));
                });
                onDispatcher(disp, [&]() { m.reset(); }, "growth:release");
                break;
            }
            default:
                api([&]() { h.startTimer(100, 1, true); });
                pert::nap(2200);
                api([&]() { h.restartTimer(100); h.startTimer(100, 1, true); });
                pert::nap(2200);
                break;
        }
    };
    struct Sample { long blocks, fds, threads; };
    auto measure = [&]() {
        phase("growth:settle");
        Sample s{};
        for (int i = 0; i < 3; ++i) { mark(*A, *disp); mark(*B, *disp); H.onLoop([]() {}); onDispatcher(disp, []() {}, "growth:settle"); }
        onDispatcher(disp, [&]() { for (int t : {100, 101, 200, 201}) A->hsm->stopTimer(t); }, "growth:stop");
        for (int i = 0; i < 3; ++i) { mark(*A, *disp); mark(*B, *disp); H.onLoop([]() {}); onDispatcher(disp, []() {}, "growth:settle"); }
        // bring machines into their initial state
        api([&]() { A->hsm->transition(G_FIN); });
        mark(*A, *disp); mark(*A, *disp);
        s = {gBlocks.load(), countDir("/proc/self/fd"), countDir("/proc/self/task")};
        // objects which are deleted later, exiting threads
        for (int i = 0; i < 4; ++i) {
            pert::nap(300); H.onLoop([]() {});
            s.blocks = std::min(s.blocks, gBlocks.load()); s.fds = std::min(s.fds, countDir("/proc/self/fd")); s.threads = std::min(s.threads, countDir("/proc/self/task"));
        }
        return s;
    };
    auto cycle = [&]() { Rng c(cycleSeed); for (int o : ops) doOp(o, c); };
    for (int i = 0; i < 4; ++i) cycle();
    auto run = [&](std::vector<Sample>& v) {
        v.push_back(measure());
        for (int k = 0; k < K; ++k) { for (int i = 0; i < C; ++i) cycle(); v.push_back(measure()); }
    };
    auto grows = [&](const std::vector<Sample>& v, long Sample::*f, long perRound) {
        for (size_t k = 1; k < v.size(); ++k) if (v[k].*f - v[k - 1].*f < perRound) return false;
        return true;
    };
    std::vector<Sample> v;
    run(v);
    auto bad = [&](const std::vector<Sample>& x) { return grows(x, &Sample::blocks, 2) ? "memory" : grows(x, &Sample::fds, 2) ? "files" : grows(x, &Sample::threads, 2) ? "threads" : nullptr; };
    const char* what = bad(v);
    if (what) {     // must be reproducible in the same process
        std::vector<Sample> w;
        run(w);
        const char* again = bad(w);
        if (again && !strcmp(what, again)) {
            std::ostringstream os;
            for (auto& s : v) os << "blocks=" << s.blocks << " files=" << s.fds << " threads=" << s.threads << "\n";
            for (auto& s : w) os << "again: blocks=" << s.blocks << " files=" << s.fds << " threads=" << s.threads << "\n";
            viol(std::string("growth:") + what + ":" + (ops.size() == 1 ? opName[ops[0]] : "mix"), "resources keep growing while the same work is repeated on a running dispatcher", os.str());
        }
    }
    phase("growth:end");
    onDispatcher(disp, [&]() { A->hsm->release(); B->hsm->release(); }, "growth:release");
    H.destroy(disp);
    R.add("growth_cycles", 4 + C * K);
    R.add("growth_ops", opsDone);
    R.add("growth_samples", (long)v.size());
    R.add("chain_events", A->chain.load());
    long lo = v[1].blocks, hi = v[1].blocks;
    for (size_t k = 1; k < v.size(); ++k) { lo = std::min(lo, v[k].blocks); hi = std::max(hi, v[k].blocks); }
    R.maxOf("max_block_variation", hi - lo);
    uint64_t hsh = 1469598103934665603ull;
    for (int o : ops) hsh = (hsh ^ (uint64_t)(o + 1)) * 1099511628211ull;
    R.note(hsh ^ (cycleSeed % 64));
    if (idx % 16 == 1) R.sample("growth ops:" + names + " blocks " + std::to_string(v.front().blocks) + " -> " + std::to_string(v.back().blocks) + " after " + std::to_string(C * K) + " cycles");
}

int main(int argc, char** argv) {
    Options o(argc, argv);
    gOut = o.str("out", "/dev/null");
    uint64_t seed = (uint64_t)o.num("seed", 1);
    long cases = o.num("cases", 100), only = o.num("only", -1);
#if defined(DISP_ARDUINO)
    ardu::pollMs = 1;
#endif
    Host::get().run([&]() {
        Watchdog wd(45000);
        for (long i = 0; i < cases; ++i) {
            if (only >= 0 && i != only) continue;
            R.eval();
            caseGrowth(seed, i);
            if (R.nviol() >= 6) break;
        }
    });
    R.write(gOut);
    finishProcess();
}
