// Monitors and workload helpers shared by the harnesses which use real dispatchers.
#pragma once
#include "host.hpp"
#include <signal.h>

namespace vh {

extern Result R;
extern std::string gOut;
inline std::atomic<long> gProgress{0};
inline std::mutex gPhaseM;
inline std::string gPhase = "start", gDesc;
inline void phase(const std::string& p) { std::lock_guard<std::mutex> l(gPhaseM); gPhase = p; gProgress.fetch_add(1); }
inline void desc(const std::string& d) { std::lock_guard<std::mutex> l(gPhaseM); gDesc = d; }
inline std::string curDesc() { std::lock_guard<std::mutex> l(gPhaseM); return gDesc; }

// a state from which the case cannot be cleaned up: write what is known and leave
[[noreturn]] inline void fatal(const std::string& key, const std::string& msg, const std::string& detail = "") {
    R.violate(key, msg, detail + "\n" + curDesc());
    R.write(gOut);
    fflush(nullptr);
    _exit(0);
}
inline void viol(const std::string& key, const std::string& msg, const std::string& detail = "") { R.violate(key, msg, curDesc() + "\n" + detail); }

struct Watchdog {
    std::thread t;
    std::atomic<bool> stop{false};
    explicit Watchdog(long stuckMs) {
        t = std::thread([this, stuckMs]() {
            pert::quiet = true;
            long last = -1;
            long long since = nowUs();
            while (!stop) {
                usleep(20000);
                if (vh::rssMb() > 6000) fatal("hang:memory", "the process used more than 6 GB of memory");
                long p = gProgress.load();
                if (p != last) { last = p; since = nowUs(); }
                else if (nowUs() - since > stuckMs * 1000) {
                    std::string ph;
                    { std::lock_guard<std::mutex> l(gPhaseM); ph = gPhase; }
                    fatal("deadlock:" + ph, "no progress for " + std::to_string(stuckMs) + " ms while: " + ph);
                }
            }
        });
    }
    ~Watchdog() { stop = true; t.join(); }
};

// thread and overlap monitor for callbacks of one dispatcher
inline thread_local bool tlInit = false;       // inside initialize()
struct LoopMon {
    std::atomic<int> inCb{0};
    std::atomic<uint64_t> loop{0};             // hash of the loop's thread id, 0 if unknown
    std::atomic<long> callbacks{0};
    static uint64_t me() { return std::hash<std::thread::id>()(std::this_thread::get_id()) | 1; }
    void enter(const char* what) {
        callbacks.fetch_add(1, std::memory_order_relaxed);
        gProgress.fetch_add(1, std::memory_order_relaxed);
        if (tlInit) return;
        uint64_t exp = loop.load();
        if (exp == 0) { loop.compare_exchange_strong(exp, me()); exp = loop.load(); }
        if (exp != me()) viol(std::string("thread:") + what, std::string(what) + " callback on another thread than the dispatcher's");
        if (inCb.fetch_add(1) != 0) viol(std::string("overlap:") + what, std::string(what) + " callback while another callback of this dispatcher is running");
    }
    void leave() { if (!tlInit) inCb.fetch_sub(1); }
};
struct CbScope {
    LoopMon& m;
    CbScope(LoopMon& mm, const char* w) : m(mm) { m.enter(w); pert::point(); }
    ~CbScope() { pert::point(); m.leave(); }
};

inline void spinWork(Rng& r, int maxUs) {
    if (maxUs <= 0) return;
    int k = r.below(10);
    if (k < 5) return;
    if (k < 8) { sched_yield(); return; }
    pert::nap(1 + r.below(maxUs));
}

// run on the dispatcher's thread and wait
template <class F>
inline void onDispatcher(const std::shared_ptr<Disp>& d, F f, const char* what) {
#if defined(DISP_STD)
    auto st = std::make_shared<std::atomic<int>>(0);
    d->enqueueAction([st, f]() mutable { f(); st->store(1); gProgress.fetch_add(1); });
    bool q = pert::quiet; pert::quiet = true;
    long long t0 = nowUs();
    while (!st->load()) {
        if (nowUs() - t0 > 1000) pert::nap(100); else sched_yield();
        if (nowUs() - t0 > 30000000) fatal(std::string("action-lost:") + what, "an action enqueued into an idle dispatcher was not executed within 30 s");
    }
    pert::quiet = q;
#else
    (void)d; (void)what;
    Host::get().onLoop(f);
#endif
}

// blocks the dispatcher's thread until opened
struct Gate {
    std::mutex m;
    std::condition_variable cv;
    bool closed = false, opened = false;
    void wait() {
        std::unique_lock<std::mutex> l(m);
        closed = true;
        cv.notify_all();
        cv.wait(l, [&]() { return opened; });
    }
    bool waitClosed(int ms = 30000) { std::unique_lock<std::mutex> l(m); return cv.wait_for(l, std::chrono::milliseconds(ms), [&]() { return closed; }); }
    void open() { std::lock_guard<std::mutex> l(m); opened = true; cv.notify_all(); }
};
inline std::shared_ptr<Gate> closeGate(const std::shared_ptr<Disp>& d) {
    auto g = std::make_shared<Gate>();
    d->enqueueAction([g]() { g->wait(); });
    if (!g->waitClosed()) fatal("action-lost:gate", "an action enqueued into an idle dispatcher was not executed within 30 s");
    return g;
}
inline bool stuckWait(const std::function<bool()>& pred, long ms = 15000) { return waitFor(pred, []() { return gProgress.load(); }, ms); }

// ---------------------------------------------------------------- observer machine: every event yields exactly one T or F record
enum { S_IDLE = 1, S_WORK = 2, S_W1 = 3, S_W2 = 4 };
enum { E_SELF = 10, E_GO = 11, E_CHILD = 12, E_NONE = 13, E_RARE = 14 };
struct Rec { char k; int st; int pid; int seq; int ev; };
struct Obs {
    LoopMon& mon;
    int idx;
    std::unique_ptr<HierarchicalStateMachine> hsm;
    std::vector<Rec> log;              // only touched on the dispatcher's thread (or during initialization)
    std::atomic<int> inMine{0};
    std::atomic<long> done{0};         // T and F records
    std::function<void(const Rec&)> hook;   // called inside callbacks
    std::atomic<bool> released{false};
    Rng rng;
    int workUs = 0;

    Obs(LoopMon& m, int i, uint64_t seed) : mon(m), idx(i), rng(seed) {}
    static Rec mk(char k, int st, const VariantVector_t& a) {
        Rec r{k, st, -1, -1, -1};
        if (a.size() >= 3) { r.pid = (int)a[0].toInt64(); r.seq = (int)a[1].toInt64(); r.ev = (int)a[2].toInt64(); }
        return r;
    }
    void on(const Rec& r, const char* w) {
        CbScope s(mon, w);
        // callbacks of the same machine never overlap, those made by initialize() on another thread included
        if (inMine.fetch_add(1) != 0) viol(std::string("overlap-own:") + w, std::string(w) + " callback while another callback of the same machine is running");
        struct Own { std::atomic<int>& c; ~Own() { c.fetch_sub(1); } } own{inMine};
        if (released.load()) viol("after-release", "callback after release returned");
        log.push_back(r);
        spinWork(rng, workUs);
        if (hook) hook(r);
        if (r.k == 'T' || r.k == 'F') done.fetch_add(1);
    }
    void build() {
        hsm.reset(new HierarchicalStateMachine(S_IDLE));
        for (int s : {S_IDLE, S_WORK, S_W1, S_W2})
            hsm->registerState(s, [this, s](const VariantVector_t& a) { on(mk('C', s, a), "state"); }, [this, s](const VariantVector_t& a) { on(mk('E', s, a), "enter"); return true; },
                               [this, s]() { on(Rec{'X', s, -1, -1, -1}, "exit"); return true; });
        hsm->registerSubstateEntryPoint(S_WORK, S_W1);
        hsm->registerSubstate(S_WORK, S_W2);
        auto t = [this](const VariantVector_t& a) { on(mk('T', 0, a), "transition"); };
        hsm->registerSelfTransition(S_IDLE, E_SELF, TransitionType::INTERNAL_TRANSITION, t);
        hsm->registerSelfTransition(S_WORK, E_SELF, TransitionType::INTERNAL_TRANSITION, t);
        hsm->registerTransition(S_IDLE, S_WORK, E_GO, t);
        hsm->registerTransition(S_WORK, S_IDLE, E_GO, t);
        hsm->registerTransition(S_W1, S_W2, E_CHILD, t);
        hsm->registerTransition(S_W2, S_W1, E_CHILD, t);
        hsm->registerFailedTransitionCallback([this](const std::list<StateID_t>&, const EventID_t e, const VariantVector_t& a) {
            Rec r = mk('F', 0, a);
            if (a.empty()) r.ev = e;
            on(r, "failed");
        });
    }
    bool init(const std::shared_ptr<Disp>& d) { tlInit = true; bool r = hsm->initialize(d); tlInit = false; return r; }
    // checks the callback stream against the machine's definition. returns the (pid,seq) order
    bool replay(std::vector<std::pair<int, int>>& order, std::string& err) const {
        int st = S_IDLE;
        size_t i = 0;
        auto show = [&](size_t from) {
            std::string s;
            for (size_t j = from > 6 ? from - 6 : 0; j < log.size() && j < from + 10; ++j) s += std::string(j == from ? " >>" : " ") + log[j].k + std::to_string(log[j].st) + "(" + std::to_string(log[j].pid) + "," + std::to_string(log[j].seq) + "," + std::to_string(log[j].ev) + ")";
            return s;
        };
        if (log.size() < 2 || log[0].k != 'E' || log[1].k != 'C') { err = "initial state callbacks missing:" + show(0); return false; }
        i = 2;
        while (i < log.size()) {
            size_t j = i;
            while (j < log.size() && log[j].k != 'T' && log[j].k != 'F') ++j;
            if (j == log.size()) { err = "callbacks without an event:" + show(i); return false; }
            const Rec& e = log[j];
            std::vector<Rec> exp;
            auto add = [&](char k, int s) { exp.push_back(Rec{k, s, k == 'X' ? -1 : e.pid, k == 'X' ? -1 : e.seq, k == 'X' ? -1 : e.ev}); };
            bool fails = e.ev == E_NONE || e.ev >= 100 || (e.ev == E_CHILD && st == S_IDLE);
            if (fails) add('F', 0);
            else if (e.ev == E_SELF) add('T', 0);
            else if (e.ev == E_GO && st == S_IDLE) { add('X', S_IDLE); add('T', 0); add('E', S_WORK); add('C', S_WORK); add('E', S_W1); add('C', S_W1); st = S_W1; }
            else if (e.ev == E_GO) { add('X', st); add('X', S_WORK); add('T', 0); add('E', S_IDLE); add('C', S_IDLE); st = S_IDLE; }
            else if (e.ev == E_CHILD) { int n = st == S_W1 ? S_W2 : S_W1; add('X', st); add('T', 0); add('E', n); add('C', n); st = n; }
            else { err = "record with an unknown event:" + show(j); return false; }
            for (size_t k = 0; k < exp.size(); ++k) {
                if (i + k >= log.size()) { err = "transition not completed:" + show(i); return false; }
                const Rec &a = log[i + k], &b = exp[k];
                if (a.k != b.k || a.st != b.st || a.pid != b.pid || a.seq != b.seq || (a.k != 'F' && a.ev != b.ev)) { err = std::string("expected ") + b.k + std::to_string(b.st) + " of (" + std::to_string(e.pid) + "," + std::to_string(e.seq) + "):" + show(i + k); return false; }
            }
            order.push_back({e.pid, e.seq});
            i += exp.size();
        }
        return true;
    }
};
}  // namespace vh
