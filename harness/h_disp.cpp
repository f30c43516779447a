// Monitors over real dispatchers: delivery and order (fifo), synchronous calls (sync), queue clears (clear), enqueued
// actions (actions), interrupt-safe events (irq) and random machines against the reference model (diff).
#define VH_PERTURB_IMPL
#include "dispmon.hpp"
#include "real.hpp"
#include <sys/resource.h>

using namespace vm;
namespace vh { Result R; std::string gOut; }
using namespace vh;

#if defined(DISP_ARDUINO)
constexpr bool SINGLE = true;    // polled dispatcher without thread-safety: every call is made from the polling thread
#else
constexpr bool SINGLE = false;
#endif
template <class F> static void api(F f) { if (SINGLE) Host::get().onLoop(f); else f(); }

static bool tsanBuild() {
#ifdef VH_TSAN
    return true;
#else
    return false;
#endif
}

#if defined(DISP_STDCV) || defined(DISP_QT) || defined(DISP_GLIBMM)
constexpr bool SIGNAL_SAFE = false;   // the toolkit's own post functions are not signal safe
#else
constexpr bool SIGNAL_SAFE = true;
#endif

static std::vector<std::unique_ptr<Obs>> mkObs(LoopMon& mon, int n, Rng& r, int workUs) {
    std::vector<std::unique_ptr<Obs>> v;
    for (int i = 0; i < n; ++i) { v.emplace_back(new Obs(mon, i, r.next())); v.back()->build(); v.back()->workUs = workUs; v.back()->log.reserve(256); }
    return v;
}
static void releaseAll(const std::shared_ptr<Disp>& d, std::vector<std::unique_ptr<Obs>>& ms) {
    phase("release");
    for (auto& m : ms) onDispatcher(d, [&]() { m->hsm->release(); }, "release");
    for (auto& m : ms) m->released = true;
}
static uint64_t orderHash(const std::vector<std::pair<int, int>>& o, uint64_t h = 1469598103934665603ull) {
    for (auto& p : o) { h ^= (uint64_t)(p.first * 1000003 + p.second + 7); h *= 1099511628211ull; }
    return h;
}
static VariantVector_t argv3(int pid, int seq, int ev) { VariantVector_t v; v.emplace_back((int64_t)pid); v.emplace_back((int64_t)seq); v.emplace_back((int64_t)ev); return v; }

// ---------------------------------------------------------------- fifo: C07, C17
static void caseFifo(uint64_t seed, long idx) {
    Rng r(seed * 7919 + (uint64_t)idx);
    Host& H = Host::get();
    int M = r.range(1, 3), P = r.range(1, 6), N = r.range(5, r.chance(20) ? 160 : 40);
    int level = tsanBuild() ? 0 : r.below(4);
    int workUs = r.chance(40) ? r.range(5, 60) : 0;
    bool lateStart = r.chance(25);                 // initialize and post before the event loop had a chance to run
    bool nested = r.chance(50);
    bool initPosts = r.chance(25), initNap = r.chance(60);
    int syncPct = SINGLE ? 0 : (r.chance(40) ? r.range(5, 60) : 0);
    std::ostringstream ds;
    ds << "fifo disp=" << DISP_NAME << " seed=" << seed << " case=" << idx << " machines=" << M << " producers=" << P << " n=" << N << " perturb=" << level << " work=" << workUs
       << " lateStart=" << lateStart << " nested=" << nested << " initPosts=" << initPosts << " sync=" << syncPct;
    desc(ds.str());
    phase("fifo:setup");
    pert::level = 0;
    LoopMon mon;
    auto ms = mkObs(mon, M, r, workUs);
    std::vector<std::atomic<long>> expected(M);
    for (auto& e : expected) e = 0;
    // posts made by callbacks: pid = 100 + machine whose callback posts
    std::vector<std::vector<int>> cbSeq(M, std::vector<int>(M, 0));
    int budget = nested ? r.range(3, 60) : 0;
    Rng cbr(r.next());
    std::shared_ptr<Disp> disp;
    static const int EVS[] = {E_SELF, E_GO, E_CHILD, E_NONE, E_GO, E_CHILD};
    auto cbPost = [&](int from, int to) {
        int ev = EVS[cbr.below(6)];
        int s = cbSeq[from][to]++;
        expected[to].fetch_add(1);
        ms[to]->hsm->transitionWithArgsArray(ev, argv3(100 + from, s, ev));
    };
    std::atomic<bool> allInit{false};
    for (int i = 0; i < M; ++i)
        ms[i]->hook = [&, i](const Rec& rec) {
            if (!allInit.load()) { if (initPosts && rec.k == 'C' && tlInit && cbr.chance(70)) { cbPost(i, i); if (initNap) pert::nap(100 + cbr.below(1500)); } return; }
            if (budget > 0 && cbr.chance(30)) { --budget; cbPost(i, cbr.below(M)); }
        };
    std::vector<int> preCount(M, 0);
    Rng pre(r.next());
    if (lateStart) {
        H.onLoop([&]() {
            disp = H.create();
#if defined(DISP_ARDUINO)
            H.polled = disp;
#endif
            for (auto& m : ms) if (!m->init(disp)) fatal("init", "initialize failed");
            for (int i = 0; i < M; ++i) {
                int k = pre.range(1, 10);
                for (int j = 0; j < k; ++j) { int ev = EVS[pre.below(6)]; expected[i].fetch_add(1); ms[i]->hsm->transitionWithArgsArray(ev, argv3(50, j, ev)); }
                preCount[i] = k;
            }
        });
    } else {
        disp = H.make();
        if (LOOP_ON_MAIN) mon.loop = std::hash<std::thread::id>()(H.loopId) | 1;
        for (auto& m : ms) H.onLoop([&]() { if (!m->init(disp)) fatal("init", "initialize failed"); });
    }
    onDispatcher(disp, [&]() { mon.loop = LoopMon::me(); }, "loop-id");
    onDispatcher(disp, [&]() { allInit = true; }, "init");
    // an action which enqueues itself again all the time: events still have to be processed
    bool spin = r.chance(15);
    struct Spin { std::atomic<bool> quit{false}, ended{false}; std::atomic<long> n{0}; std::function<void()> f; };
    auto sp = std::make_shared<Spin>();
    if (spin) {
        std::weak_ptr<Disp> wd = disp;
        sp->f = [s = sp.get(), wd]() { s->n.fetch_add(1); auto d = wd.lock(); if (s->quit.load() || !d) s->ended = true; else { if ((s->n.load() & 15) == 0) sched_yield(); d->enqueueAction(s->f); } };
        api([&]() { disp->enqueueAction(sp->f); });
    }
    pert::seedBase = r.next();
    pert::level = level;
    phase("fifo:post");
    std::vector<std::thread> th;
    std::vector<std::vector<int>> cnt(P, std::vector<int>(M, 0));
    for (int p = 0; p < P; ++p) {
        uint64_t s = r.next();
        th.emplace_back([&, p, s]() {
            Rng pr(s);
            int pause = pr.below(4);
            for (int k = 0; k < N; ++k) {
                int m = pr.below(M), ev = EVS[pr.below(6)];
                int seq = cnt[p][m]++;
                expected[m].fetch_add(1);
                if (pr.chance(syncPct)) {
                    long before = ms[m]->done.load();
                    bool ok = ms[m]->hsm->transitionExWithArgsArray(ev, false, true, pr.chance(50) ? 0 : 30000, argv3(p, seq, ev));
                    if (ok && (ev == E_NONE || ms[m]->done.load() == before)) viol("fifo:sync-true", "synchronous call returned true although its event was not accepted before");
                    if (!ok && (ev == E_SELF || ev == E_GO)) viol("fifo:sync-false", "synchronous call returned false although its event is always accepted");
                } else {
                    VariantVector_t a = argv3(p, seq, ev);
                    api([&]() { if (k & 1) ms[m]->hsm->transitionWithArgsArray(ev, std::move(a)); else ms[m]->hsm->transition(ev, a[0], a[1], a[2]); });
                }
                gProgress.fetch_add(1);
                if (pause == 1 && pr.chance(30)) sched_yield();
                if (pause == 2 && pr.chance(20)) pert::nap(1 + pr.below(150));
                if (pause == 3 && pr.chance(3)) pert::nap(1000);
            }
        });
    }
    for (auto& t : th) t.join();
    phase("fifo:drain");
    // callbacks of the last events can still post: everything is processed, posting is over, everything is processed
    auto drained = [&]() { for (int i = 0; i < M; ++i) if (ms[i]->done.load() < expected[i].load()) return false; return true; };
    bool okAll = stuckWait(drained);
    onDispatcher(disp, [&]() { budget = 0; }, "stop-posting");
    okAll = okAll && stuckWait(drained);
    if (!okAll) {
        std::string d2;
        for (int i = 0; i < M; ++i) d2 += " machine" + std::to_string(i) + ": " + std::to_string(ms[i]->done.load()) + "/" + std::to_string(expected[i].load());
        fatal("fifo:lost", "posted events were not processed although nothing happened for 15 s:" + d2);
    }
    pert::level = 0;
    if (spin) {
        sp->quit = true;
        if (!stuckWait([&]() { return sp->ended.load(); })) fatal("fifo:action-lost", "an action enqueued by an action was not executed");
        R.add("spinning_actions", sp->n.load());
    }
    // let duplicates show up
    for (int k = 0; k < 3; ++k) onDispatcher(disp, []() {}, "barrier");
    if (r.chance(20)) pert::nap(2000);
    releaseAll(disp, ms);
    uint64_t h = 0;
    long total = 0;
    for (int i = 0; i < M; ++i) {
        std::vector<std::pair<int, int>> order;
        std::string err;
        if (!ms[i]->replay(order, err)) { viol("fifo:run-to-completion", "machine " + std::to_string(i) + ": " + err); continue; }
        std::map<int, int> next;
        for (auto& o : order) {
            int want = next[o.first];
            if (o.second != want) { viol(o.second < want ? "fifo:duplicate" : "fifo:order", "machine " + std::to_string(i) + ": producer " + std::to_string(o.first) + " expected its event " + std::to_string(want) + ", got " + std::to_string(o.second)); break; }
            next[o.first] = want + 1;
        }
        for (int p = 0; p < P; ++p) if (next[p] != cnt[p][i]) viol("fifo:count", "machine " + std::to_string(i) + ": producer " + std::to_string(p) + " posted " + std::to_string(cnt[p][i]) + " processed " + std::to_string(next[p]));
        if (next[50] != preCount[i]) viol("fifo:count-early", "events posted before the event loop started");
        for (int f = 0; f < M; ++f) if (next[100 + f] != cbSeq[f][i]) viol("fifo:count-nested", "events posted from callbacks");
        h = orderHash(order, h + 1);
        total += (long)order.size();
        R.add("log_records", (long)ms[i]->log.size());
        R.add("nested_posts", next[100] + next[101] + next[102]);
    }
    phase("fifo:destroy");
    ms.clear();
    H.destroy(disp);
    R.add("events", total);
    R.add("callbacks", mon.callbacks.load());
    if (lateStart) R.add("late_start_cases");
    if (P > 1 || nested) R.note(h);
    if (idx % 61 == 0) R.sample(ds.str() + " events=" + std::to_string(total));
}

// many wakeups before the loop gets a chance to read them, posted by the loop itself
static void caseBurst(uint64_t seed, long idx, int n) {
    Host& H = Host::get();
    Rng r(seed + (uint64_t)idx);
    desc("burst disp=" + std::string(DISP_NAME) + " n=" + std::to_string(n));
    phase("burst:" + std::string(DISP_NAME));
    pert::level = 0;
    LoopMon mon;
    auto ms = mkObs(mon, 2, r, 0);
    auto disp = H.make();
    bool started = false;
    int other = 0;
    ms[0]->hook = [&](const Rec&) {
        if (tlInit || started) return;
        started = true;
        for (int i = 0; i < n; ++i) { int t = i & 1; ms[t]->hsm->transitionWithArgsArray(E_SELF, argv3(100, i >> 1, E_SELF)); other += t; }
    };
    for (auto& m : ms) H.onLoop([&]() { m->init(disp); });
    onDispatcher(disp, [&]() { mon.loop = LoopMon::me(); }, "loop-id");
    api([&]() { ms[0]->hsm->transitionWithArgsArray(E_SELF, argv3(1, 0, E_SELF)); });
    if (!stuckWait([&]() { return ms[0]->done.load() >= n / 2 + 1 && ms[1]->done.load() >= n / 2; }))
        fatal("burst:lost:" + std::string(DISP_NAME), "events posted in a burst from a callback were not all processed: " + std::to_string(ms[0]->done.load()) + "+" + std::to_string(ms[1]->done.load()) + " of " + std::to_string(n));
    releaseAll(disp, ms);
    for (auto& m : ms) {
        std::vector<std::pair<int, int>> o; std::string err;
        if (!m->replay(o, err)) viol("burst:replay", err);
        std::map<int, int> next;
        for (auto& p : o) if (p.second != next[p.first]++) { viol("burst:order", "order of events posted by one callback"); break; }
    }
    ms.clear();
    H.destroy(disp);
    R.add("burst_events", n);
    R.eval();
}

// ---------------------------------------------------------------- actions: C15
static void caseActions(uint64_t seed, long idx) {
    Rng r(seed * 104729 + (uint64_t)idx);
    Host& H = Host::get();
    int P = r.range(1, 6), N = r.range(1, r.chance(20) ? 200 : 30);
    int level = tsanBuild() ? 0 : r.below(4);
    bool withMachine = r.chance(50), nested = r.chance(50), idleGaps = r.chance(50);
    std::ostringstream ds;
    ds << "actions disp=" << DISP_NAME << " seed=" << seed << " case=" << idx << " producers=" << P << " n=" << N << " perturb=" << level << " machine=" << withMachine << " nested=" << nested << " gaps=" << idleGaps;
    desc(ds.str());
    phase("actions:setup");
    pert::level = 0;
    LoopMon mon;
    auto disp = H.make();
    std::vector<std::unique_ptr<Obs>> ms;
    if (withMachine) { ms = mkObs(mon, 1, r, 0); H.onLoop([&]() { ms[0]->init(disp); }); }
    struct A { int pid, seq; };
    std::vector<A> log;
    std::atomic<long> ran{0}, want{0};
    std::atomic<int> nestedSeq{0};
    Rng ar(r.next());
    pert::seedBase = r.next();
    pert::level = level;
    phase("actions:post");
    std::atomic<long> evPosted{0};
    std::function<void(int, int)> body = [&](int pid, int seq) {
        CbScope s(mon, "action");
        log.push_back({pid, seq});
        if (nested && pid != 99 && ar.chance(25)) {
            want.fetch_add(1);
            int q = nestedSeq.fetch_add(1);
            disp->enqueueAction([&body, q]() { body(99, q); });
        }
        if (withMachine && ar.chance(20)) { int s2 = (int)evPosted.fetch_add(1); ms[0]->hsm->transitionWithArgsArray(E_GO, argv3(1, s2, E_GO)); }
        if (withMachine && ar.chance(10)) { ms[0]->hsm->startTimer(5, 60000, true); if (!ms[0]->hsm->isTimerRunning(5)) viol("actions:timer", "timer started by an action is not running"); ms[0]->hsm->stopTimer(5); }
        ran.fetch_add(1);
    };
    std::vector<std::thread> th;
    for (int p = 0; p < P; ++p) {
        uint64_t s = r.next();
        th.emplace_back([&, p, s]() {
            Rng pr(s);
            for (int k = 0; k < N; ++k) {
                want.fetch_add(1);
                api([&]() { disp->enqueueAction([&body, p, k]() { body(p, k); }); });
                gProgress.fetch_add(1);
                if (idleGaps && pr.chance(30)) {   // the only thing that can wake the dispatcher up is the action itself
                    if (P == 1 && !stuckWait([&]() { return ran.load() >= want.load(); })) fatal("actions:lost", "an action enqueued into an idle dispatcher was not executed");
                    pert::nap(1 + pr.below(300));
                }
            }
        });
    }
    for (auto& t : th) t.join();
    phase("actions:drain");
    if (!stuckWait([&]() { return ran.load() >= want.load(); }))
        fatal("actions:lost", "actions were not executed although nothing happened for 15 s: " + std::to_string(ran.load()) + "/" + std::to_string(want.load()));
    if (withMachine && !stuckWait([&]() { return ms[0]->done.load() >= evPosted.load(); })) fatal("actions:event-lost", "events posted from actions were not processed");
    pert::level = 0;
    onDispatcher(disp, []() {}, "barrier");
    onDispatcher(disp, []() {}, "barrier");
    std::map<int, int> next;
    for (auto& a : log) { if (a.seq != next[a.pid]) { viol(a.seq < next[a.pid] ? "actions:twice" : "actions:order", "thread " + std::to_string(a.pid) + " expected action " + std::to_string(next[a.pid]) + " got " + std::to_string(a.seq)); break; } next[a.pid]++; }
    if ((long)log.size() != want.load()) viol("actions:count", "executed " + std::to_string(log.size()) + " of " + std::to_string(want.load()));
    uint64_t h = 17;
    for (auto& a : log) { h ^= (uint64_t)(a.pid * 7919 + a.seq); h *= 1099511628211ull; }
    if (withMachine) { releaseAll(disp, ms); std::vector<std::pair<int, int>> o; std::string err; if (!ms[0]->replay(o, err)) viol("actions:machine", err); }
    ms.clear();
    H.destroy(disp);
    R.add("actions", (long)log.size());
    R.add("nested_actions", nestedSeq.load());
    if (log.size() > 3) R.note(h);
    if (idx % 61 == 0) R.sample(ds.str());
}

// ---------------------------------------------------------------- sync: C08
// outcome of every event is determined by its kind and recorded by its own callbacks
enum { Y_INT = 20, Y_GO, Y_GUARD, Y_REFX, Y_REFE, Y_NONE, Y_HIST, Y_FINAL, Y_CHILD, Y_KINDS = 9 };
enum { A_ = 1, B_ = 2, P_ = 3, P1_ = 4, P2_ = 5, H_ = 6, F_ = 7 };
struct SyncM {
    LoopMon& mon;
    HierarchicalStateMachine hsm{A_};
    std::vector<std::atomic<uint8_t>> accepted, completed, failedE, refused;
    std::atomic<long> processed{0};
    bool refX = false;
    explicit SyncM(LoopMon& m, int maxId) : mon(m), accepted(maxId), completed(maxId), failedE(maxId), refused(maxId) {
        for (int i = 0; i < maxId; ++i) { accepted[i] = 0; completed[i] = 0; failedE[i] = 0; refused[i] = 0; }
        auto id = [](const VariantVector_t& a) { return a.empty() ? -1 : (int)a[0].toInt64(); };
        auto kind = [](const VariantVector_t& a) { return a.size() < 2 ? -1 : (int)a[1].toInt64(); };
        auto T = [this, id, kind](const VariantVector_t& a) {
            CbScope s(mon, "transition");
            int i = id(a);
            if (i >= 0) { accepted[i].fetch_add(1); if (kind(a) == Y_INT) completed[i].fetch_add(1); }
        };
        for (int st : {(int)A_, (int)B_, (int)P_, (int)P1_, (int)P2_}) {
            bool leaf = st != P_;
            hsm.registerState(st,
                [this, id, kind, leaf, st](const VariantVector_t& a) { CbScope s(mon, "state"); int i = id(a); if (i >= 0 && leaf) completed[i].fetch_add(1); if (st == F_) return; },
                [this, id, kind](const VariantVector_t& a) { CbScope s(mon, "enter"); int i = id(a); if (i >= 0 && kind(a) == Y_REFE) { refused[i].fetch_add(1); return false; } return true; },
                [this, st]() { CbScope s(mon, "exit"); if (refX && st != P1_ && st != P2_) { refX = false; return false; } return true; });
        }
        hsm.registerFinalState(F_, Y_NONE + 100, [this, id](const VariantVector_t& a) { CbScope s(mon, "state"); int i = id(a); if (i >= 0) completed[i].fetch_add(1); },
            [this](const VariantVector_t&) { CbScope s(mon, "enter"); return true; }, [this]() { CbScope s(mon, "exit"); if (refX) { refX = false; return false; } return true; });
        hsm.registerSubstateEntryPoint(P_, P1_);
        hsm.registerSubstate(P_, P2_);
        hsm.registerHistory(P_, H_, HistoryType::DEEP);
        auto yes = [this](const VariantVector_t&) { refX = false; return true; };
        auto no = [this](const VariantVector_t&) { refX = false; return false; };
        auto rx = [this](const VariantVector_t&) { refX = true; return true; };
        for (int st : {(int)A_, (int)B_, (int)P_, (int)F_}) {
            int nxt = st == A_ ? B_ : st == B_ ? P_ : A_;
            hsm.registerSelfTransition(st, Y_INT, TransitionType::INTERNAL_TRANSITION, T, yes);
            hsm.registerTransition(st, nxt, Y_GO, T, yes);
            hsm.registerTransition(st, nxt, Y_GUARD, T, no);
            hsm.registerTransition(st, nxt, Y_REFX, T, rx);
            hsm.registerTransition(st, nxt, Y_REFE, T, yes);
            if (st != P_) hsm.registerTransition(st, H_, Y_HIST, T, yes);
            if (st != F_) hsm.registerTransition(st, F_, Y_FINAL, T, yes);
        }
        hsm.registerTransition(P1_, P2_, Y_CHILD, T, yes);
        hsm.registerTransition(P2_, P1_, Y_CHILD, T, yes);
        hsm.registerFailedTransitionCallback([this, id](const std::list<StateID_t>&, const EventID_t, const VariantVector_t& a) { CbScope s(mon, "failed"); int i = id(a); if (i >= 0) failedE[i].fetch_add(1); });
    }
};

static void caseSync(uint64_t seed, long idx) {
    Rng r(seed * 15485863 + (uint64_t)idx);
    Host& H = Host::get();
    int P = r.range(1, 6), N = r.range(3, r.chance(20) ? 60 : 20);
    int level = tsanBuild() ? 0 : r.below(4);
    int clearPct = r.chance(35) ? r.range(5, 30) : 0;
    int shortPct = r.chance(30) ? 20 : 0;
    int asyncPct = r.chance(50) ? 30 : 0;
    int blockPct = shortPct ? 40 : 0;      // gates which make short timeouts expire
    int relMode = r.below(5);              // 0: release while callers are waiting, 1: destroy the machine meanwhile, else: normal end
    std::ostringstream ds;
    ds << "sync disp=" << DISP_NAME << " seed=" << seed << " case=" << idx << " producers=" << P << " n=" << N << " perturb=" << level << " clear=" << clearPct << " short=" << shortPct << " release=" << relMode;
    desc(ds.str());
    phase("sync:setup");
    pert::level = 0;
    LoopMon mon;
    int maxId = P * N + 64;
    auto m = std::make_shared<SyncM>(mon, maxId);
    auto disp = H.make();
    H.onLoop([&]() { tlInit = true; if (!m->hsm.initialize(disp)) fatal("init", "initialize failed"); tlInit = false; });
    onDispatcher(disp, [&]() { mon.loop = LoopMon::me(); }, "loop-id");
    struct Call { int id, kind, timeout; bool ret, clear, sync; long long t0, t1; int completedAt; };
    std::vector<std::vector<Call>> calls(P);
    std::atomic<int> running{P};
    pert::seedBase = r.next();
    pert::level = level;
    phase("sync:post");
    std::vector<std::thread> th;
    for (int p = 0; p < P; ++p) {
        uint64_t s = r.next();
        th.emplace_back([&, p, s]() {
            Rng pr(s);
            for (int k = 0; k < N; ++k) {
                Call c;
                c.id = p * N + k;
                c.kind = Y_INT + pr.below(Y_KINDS);
                c.sync = !pr.chance(asyncPct);
                c.clear = pr.chance(clearPct);
                c.timeout = pr.chance(shortPct) ? pr.range(1, 4) : pr.chance(50) ? 0 : 60000;
                VariantVector_t a; a.emplace_back((int64_t)c.id); a.emplace_back((int64_t)c.kind);
                c.t0 = nowUs();
                c.ret = m->hsm.transitionExWithArgsArray(c.kind, c.clear, c.sync, c.timeout, std::move(a));
                c.completedAt = m->completed[c.id].load();
                c.t1 = nowUs();
                gProgress.fetch_add(1);
                calls[p].push_back(c);
                if (pr.chance(10)) sched_yield();
            }
            running.fetch_sub(1);
        });
    }
    while (blockPct && running.load() > 0) {
        auto g = closeGate(disp);
        pert::nap(1000 * r.range(1, 6));
        g->open();
        pert::nap(300 + r.below(2000));
    }
    for (auto& t : th) t.join();
    phase("sync:drain");
    // all remaining events (asynchronous and timed out ones) are processed before this one
    { VariantVector_t a; a.emplace_back((int64_t)(P * N)); a.emplace_back((int64_t)Y_INT); if (!m->hsm.transitionExWithArgsArray(Y_INT, false, true, 60000, std::move(a))) fatal("sync:fence", "a synchronous internal self transition on an idle machine failed"); }
    pert::level = 0;
    onDispatcher(disp, []() {}, "barrier");
    long nTrue = 0, nFalse = 0, nTimeout = 0, nCleared = 0;
    uint64_t h = 3;
    for (auto& v : calls)
        for (auto& c : v) {
            bool comp = m->completed[c.id].load() > 0, fail = m->failedE[c.id].load() > 0, acc = m->accepted[c.id].load() > 0, ref = m->refused[c.id].load() > 0;
            bool early = c.timeout == 0 || c.t1 - c.t0 < (long long)c.timeout * 1000 - 1000;
            std::string who = "kind " + std::to_string(c.kind - Y_INT) + " timeout=" + std::to_string(c.timeout) + " elapsed_us=" + std::to_string(c.t1 - c.t0) + " accepted=" + std::to_string(acc) + " completed=" + std::to_string(comp) + " failed=" + std::to_string(fail) + " refused=" + std::to_string(ref) + " returned=" + std::to_string(c.ret);
            if (m->completed[c.id].load() > 1 || m->accepted[c.id].load() > 1 || m->failedE[c.id].load() > 1) viol("sync:twice", "event processed more than once: " + who);
            bool mayComplete = c.kind == Y_INT || c.kind == Y_GO || c.kind == Y_HIST || c.kind == Y_FINAL || c.kind == Y_CHILD;
            if (comp && !mayComplete) viol("sync:model", "event of this kind must not complete: " + who);
            if (!c.sync) { if (!c.ret) viol("sync:async-false", "asynchronous call returned false"); continue; }
            if (c.ret) { ++nTrue; if (!comp) viol("sync:true-not-completed", "returned true for an event which did not complete: " + who); else if (!c.completedAt) viol("sync:true-too-early", "returned true before the event was completed: " + who); }
            else {
                ++nFalse;
                if (early && comp) viol("sync:false-but-completed", "returned false before the timeout although the event completed: " + who);
                if (!early) ++nTimeout;
                if (early && !fail && !ref && !acc && c.kind != Y_REFX) { ++nCleared; if (!clearPct) viol("sync:false-unprocessed", "returned false before the timeout although the event was neither processed nor removed: " + who); }
            }
            if (c.t1 - c.t0 > ((long long)c.timeout + 30000) * 1000 && c.timeout) viol("sync:late", "returned long after its timeout: " + who);
            h = h * 1099511628211ull ^ (uint64_t)(c.kind * 4 + c.ret * 2 + early);
        }
    R.add("sync_true", nTrue); R.add("sync_false", nFalse); R.add("sync_timed_out", nTimeout); R.add("sync_removed", nCleared);
    R.note(h);
    if (relMode < 2) {
        phase("sync:release-with-waiters");
        auto g = closeGate(disp);
        int W = r.range(1, 5);
        std::atomic<int> entered{0}, back{0};
        std::atomic<int> trues{0};
        std::vector<std::thread> ws;
        for (int w = 0; w < W; ++w) ws.emplace_back([&, w]() {
            VariantVector_t a; a.emplace_back((int64_t)(P * N + 1 + w)); a.emplace_back((int64_t)Y_INT);
            entered.fetch_add(1);
            if (m->hsm.transitionExWithArgsArray(Y_INT, false, true, w % 3 == 2 ? 60000 : 0, std::move(a))) trues.fetch_add(1);
            back.fetch_add(1);
        });
        while (entered.load() < W) sched_yield();
        pert::nap(1000 + r.below(3000));     // let them queue up
        if (level) pert::level = level;
        disp->enqueueAction([&]() { m->hsm.release(); });
        g->open();
        if (!stuckWait([&]() { return back.load() == W; }, 12000)) fatal("sync:release-hang", std::to_string(W - back.load()) + " of " + std::to_string(W) + " synchronous callers are still waiting 12 s after the machine was released");
        for (auto& t : ws) t.join();
        pert::level = 0;
        onDispatcher(disp, []() {}, "barrier");
        if (trues.load()) {   // possible only for events processed before release
            int done = 0; for (int w = 0; w < W; ++w) done += m->completed[P * N + 1 + w].load();
            if (trues.load() > done) viol("sync:release-true", "callers released by release() got true");
        }
        R.add("released_waiters", W);
    } else onDispatcher(disp, [&]() { m->hsm.release(); }, "release");
    phase("sync:destroy");
    m.reset();
    H.destroy(disp);
    if (idx % 61 == 0) R.sample(ds.str() + " true=" + std::to_string(nTrue) + " false=" + std::to_string(nFalse));
}

// ---------------------------------------------------------------- clear: C09 with concurrent clearers
static void caseClear(uint64_t seed, long idx) {
    Rng r(seed * 32452843 + (uint64_t)idx);
    Host& H = Host::get();
    int P = r.range(2, 5), N = r.range(5, 50);
    int level = tsanBuild() ? 0 : r.below(4);
    int clearPct = r.range(2, 25);
    int workUs = r.chance(50) ? r.range(5, 80) : 0;
    std::ostringstream ds;
    ds << "clear disp=" << DISP_NAME << " seed=" << seed << " case=" << idx << " producers=" << P << " n=" << N << " perturb=" << level << " clear=" << clearPct;
    desc(ds.str());
    phase("clear:setup");
    pert::level = 0;
    LoopMon mon;
    auto ms = mkObs(mon, 1, r, workUs);
    Obs& m = *ms[0];
    auto disp = H.make();
    H.onLoop([&]() { m.init(disp); });
    onDispatcher(disp, [&]() { mon.loop = LoopMon::me(); }, "loop-id");
    struct Call { int pid, seq; bool clear, sync, ret; long long t0, t1; };
    std::atomic<long long> clk{1};         // logical clock: total order of all observed moments
    std::vector<std::vector<Call>> calls(P + 1);
    std::map<std::pair<int, int>, long long> at;   // when an event's processing was observed
    m.hook = [&](const Rec& rec) { if (rec.k == 'T' || rec.k == 'F') at[{rec.pid, rec.seq}] = clk.fetch_add(1); };
    pert::seedBase = r.next();
    pert::level = level;
    phase("clear:post");
    std::vector<std::thread> th;
    static const int EVS[] = {E_SELF, E_GO, E_CHILD, E_NONE, E_GO, E_CHILD};
    for (int p = 0; p < P; ++p) {
        uint64_t s = r.next();
        th.emplace_back([&, p, s]() {
            Rng pr(s);
            for (int k = 0; k < N; ++k) {
                Call c{p, k, pr.chance(clearPct), pr.chance(15), false, 0, 0};
                int ev = EVS[pr.below(6)];
                c.t0 = clk.fetch_add(1);
                c.ret = m.hsm->transitionExWithArgsArray(ev, c.clear, c.sync, 0, argv3(p, k, ev));
                c.t1 = clk.fetch_add(1);
                gProgress.fetch_add(1);
                calls[p].push_back(c);
                if (pr.chance(20)) pert::nap(1 + pr.below(60));
            }
        });
    }
    for (auto& t : th) t.join();
    phase("clear:fence");
    if (!m.hsm->transitionExWithArgsArray(E_SELF, false, true, 60000, argv3(P, 0, E_SELF))) fatal("clear:fence", "synchronous fence failed");
    onDispatcher(disp, []() {}, "barrier");
    pert::level = 0;
    long cleared = 0, kept = 0;
    std::vector<Call> all;
    for (auto& v : calls) for (auto& c : v) all.push_back(c);
    std::vector<const Call*> clears;
    for (auto& c : all) if (c.clear) clears.push_back(&c);
    for (auto& c : all) {
        auto it = at.find({c.pid, c.seq});
        bool done = it != at.end();
        done ? ++kept : ++cleared;
        std::string who = "event (" + std::to_string(c.pid) + "," + std::to_string(c.seq) + ")";
        if (!done) {
            // only a clear which was not finished before this event was posted can have removed it
            bool any = false;
            for (auto* k : clears) if (k != &c && k->t1 > c.t0) { any = true; break; }
            if (!any) viol("clear:lost", who + " was not processed although no queue clear happened after it was posted");
            if (c.sync && c.ret) viol("clear:sync-true", who + " was removed but its synchronous caller got true");
        } else if (true) {
            // posted before a clear began, but processed although the clear's event (or anything after it) was processed earlier
            for (auto* k : clears) {
                if (k == &c || k->t0 < c.t1) continue;
                auto kt = at.find({k->pid, k->seq});
                if (kt != at.end() && kt->second < it->second) { viol("clear:kept", who + " was processed after the event (" + std::to_string(k->pid) + "," + std::to_string(k->seq) + ") which cleared the queue after it was posted"); break; }
            }
        }
        if (c.sync && c.ret && !done) viol("clear:true", who);
    }
    releaseAll(disp, ms);
    std::vector<std::pair<int, int>> order; std::string err;
    if (!m.replay(order, err)) viol("clear:replay", err);
    std::set<std::pair<int, int>> uniq(order.begin(), order.end());
    if (uniq.size() != order.size()) viol("clear:twice", "an event was processed twice");
    std::map<int, int> last;
    for (auto& o : order) { auto l = last.find(o.first); if (l != last.end() && l->second > o.second) { viol("clear:order", "events of one thread out of order"); break; } last[o.first] = o.second; }
    R.add("threaded_cleared", cleared); R.add("threaded_kept", kept);
    R.note(orderHash(order));
    ms.clear();
    H.destroy(disp);
    if (idx % 61 == 0) R.sample(ds.str() + " removed=" + std::to_string(cleared) + " kept=" + std::to_string(kept));
}

// exact scenario behind a closed gate: a known queue content, one clear, waiters must be released at once
// returns false if a waiter turned out to be slower than the clear
static bool caseClearGateOnce(uint64_t seed, long idx, int attempt) {
    Rng r(seed * 49979687 + (uint64_t)idx);
    Host& H = Host::get();
    int level = tsanBuild() ? 0 : r.below(3);
    int before = r.range(0, 6), after = r.range(0, 4), W = r.range(0, 4), WA = r.range(0, 2);
    bool clearSync = r.chance(40);
    if (clearSync && W == 0) W = 1;        // its return shows that the queue was cleared
    std::ostringstream ds;
    ds << "clear-gate disp=" << DISP_NAME << " seed=" << seed << " case=" << idx << " before=" << before << " after=" << after << " waiters=" << W << "+" << WA << " clearSync=" << clearSync;
    desc(ds.str());
    phase("cleargate:setup");
    pert::level = 0;
    LoopMon mon;
    auto ms = mkObs(mon, 2, r, 0);
    Obs& m = *ms[0];
    auto disp = H.make();
    for (auto& o : ms) H.onLoop([&]() { o->init(disp); });
    onDispatcher(disp, [&]() { mon.loop = LoopMon::me(); }, "loop-id");
    pert::seedBase = r.next();
    bool inWork = r.chance(50);
    if (inWork) { if (!m.hsm->transitionExWithArgsArray(E_GO, false, true, 60000, argv3(90, 0, E_GO))) fatal("cleargate:go", "synchronous transition failed"); }
    auto g = closeGate(disp);
    pert::level = level;
    phase("cleargate:waiters");
    std::atomic<int> entered{0}, back{0}, trues{0};
    std::vector<std::thread> ws;
    auto waiter = [&](int pid, int timeout) {
        entered.fetch_add(1);
        if (m.hsm->transitionExWithArgsArray(E_SELF, false, true, timeout, argv3(pid, 0, E_SELF))) trues.fetch_add(1);
        back.fetch_add(1);
    };
    for (int w = 0; w < W; ++w) ws.emplace_back(waiter, 20 + w, w & 1 ? 60000 : 0);
    for (int i = 0; i < before; ++i) m.hsm->transitionWithArgsArray(E_GO, argv3(1, i, E_GO));
    ms[1]->hsm->transitionWithArgsArray(E_GO, argv3(1, 0, E_GO));     // another machine is not affected
    while (entered.load() < W) sched_yield();
    // posting happens right at the start of the call: give the waiters time to get there
    pert::nap(attempt ? 1500000 : 2000 + r.below(2000));
    std::thread clr;
    std::atomic<int> clrRet{-1};
    if (clearSync) { clr = std::thread([&]() { clrRet = m.hsm->transitionExWithArgsArray(E_SELF, true, true, 60000, argv3(2, 0, E_SELF)); }); pert::nap(2000); }
    else m.hsm->transitionWithQueueClear(E_SELF, Variant((int64_t)2), Variant((int64_t)0), Variant((int64_t)E_SELF));
    phase("cleargate:removed");
    // their events are gone: they must return although the dispatcher is still blocked
    bool raced = false;
    if (!stuckWait([&]() { return back.load() == W; }, attempt ? 12000 : 4000)) {
        // either nobody released them, or they posted after the clear because the machine is busy
        int missing = W - back.load();
        g->open();
        if (!stuckWait([&]() { return back.load() == W; }, 12000)) fatal("cleargate:waiter-hang", std::to_string(missing) + " of " + std::to_string(W) + " callers whose events were removed never returned");
        if (attempt) fatal("cleargate:waiter-late", std::to_string(missing) + " of " + std::to_string(W) + " callers whose events were removed were not released before the dispatcher continued");
        raced = true;
    }
    if (raced) {
        for (auto& t : ws) t.join();
        if (clr.joinable()) clr.join();
        pert::level = 0;
        onDispatcher(disp, []() {}, "barrier");
        releaseAll(disp, ms);
        ms.clear();
        H.destroy(disp);
        R.add("gate_raced");
        return false;
    }
    if (trues.load()) viol("cleargate:true", "a caller whose event was removed got true");
    for (int w = 0; w < WA; ++w) ws.emplace_back(waiter, 40 + w, 0);
    for (int i = 0; i < after; ++i) m.hsm->transitionWithArgsArray(E_GO, argv3(3, i, E_GO));
    pert::nap(1000);
    g->open();
    phase("cleargate:open");
    long want = (inWork ? 1 : 0) + 1 + after + WA;
    if (!stuckWait([&]() { return m.done.load() >= want && back.load() == W + WA; })) fatal("cleargate:lost", "events posted together with or after the clear were not processed: " + std::to_string(m.done.load()) + "/" + std::to_string(want));
    for (auto& t : ws) t.join();
    if (clr.joinable()) clr.join();
    if (clearSync && clrRet.load() != 1) viol("cleargate:clear-false", "the clearing synchronous transition returned false");
    if (trues.load() != WA) viol("cleargate:after-false", "a caller which posted after the clear got false");
    if (!stuckWait([&]() { return ms[1]->done.load() == 1; })) fatal("cleargate:other", "event of another machine was lost by a queue clear");
    onDispatcher(disp, []() {}, "barrier");
    onDispatcher(disp, []() {}, "barrier");
    pert::level = 0;
    releaseAll(disp, ms);
    std::vector<std::pair<int, int>> order; std::string err;
    if (!m.replay(order, err)) viol("cleargate:replay", err);
    for (auto& o : order) if (o.first == 1 || (o.first >= 20 && o.first < 40)) viol("cleargate:kept", "event of " + std::to_string(o.first) + " was processed although the queue was cleared after it was posted");
    if ((long)order.size() != want) viol("cleargate:count", "processed " + std::to_string(order.size()) + " expected " + std::to_string(want));
    R.add("gate_released_waiters", W); R.add("gate_cases");
    R.note(hashStr(ds.str()));
    ms.clear();
    H.destroy(disp);
    if (idx % 61 == 0) R.sample(ds.str());
    return true;
}
static void caseClearGate(uint64_t seed, long idx) {
    for (int attempt = 0; attempt < 2; ++attempt) if (caseClearGateOnce(seed, idx, attempt)) return;
}

// ---------------------------------------------------------------- irq: C12
static Obs* volatile gIrqM[3];
static std::atomic<int> gIrqNext{100}, gIrqBusy{0};
static std::atomic<bool> gIrqOn{false};
static std::atomic<uint8_t>* gIrqAcc = nullptr;   // per event id: 1 accepted 2 refused
static int gIrqMax = 0, gIrqMachines = 1;
static std::atomic<long> gSigPosts{0};
static void irqPost() {
    int id = gIrqNext.fetch_add(1);
    if (id >= gIrqMax) return;
    bool was = pert::inIrq;
    pert::inIrq = true;
    bool ok = gIrqM[id % gIrqMachines]->hsm->transitionInterruptSafe(id);
    pert::inIrq = was;
    gIrqAcc[id].store(ok ? 1 : 2);
}
static void onSig(int) {
    if (!gIrqOn.load()) return;
    int e = errno;
    gIrqBusy.fetch_add(1);
    if (gIrqOn.load()) { irqPost(); gSigPosts.fetch_add(1); }
    gIrqBusy.fetch_sub(1);
    errno = e;
}
static void caseIrq(uint64_t seed, long idx) {
    Rng r(seed * 67867967 + (uint64_t)idx);
    Host& H = Host::get();
    int P = SINGLE ? 0 : r.range(0, 4), N = r.range(5, 80), M = r.range(1, 3);
    int level = tsanBuild() ? 0 : r.below(4);
    size_t cap = r.chance(50) ? r.range(1, 8) : r.chance(50) ? 20 : 10;
    bool sigs = r.chance(75) && SIGNAL_SAFE, gate = r.chance(40) && !SINGLE, normal = r.chance(50), idleOnly = r.chance(15);
    if (idleOnly) { normal = false; }
    std::ostringstream ds;
    ds << "irq disp=" << DISP_NAME << " seed=" << seed << " case=" << idx << " producers=" << P << " n=" << N << " machines=" << M << " perturb=" << level << " capacity=" << cap << " sigs=" << sigs << " gate=" << gate << " normal=" << normal;
    desc(ds.str());
    phase("irq:setup");
    pert::level = 0;
    LoopMon mon;
    auto ms = mkObs(mon, M, r, r.chance(40) ? 30 : 0);
    auto disp = H.make(cap);
    for (auto& o : ms) H.onLoop([&]() { o->init(disp); });
    pthread_t loopThread{};
    onDispatcher(disp, [&]() { mon.loop = LoopMon::me(); loopThread = pthread_self(); }, "loop-id");
    const int MAXE = 20000;
    std::unique_ptr<std::atomic<uint8_t>[]> acc(new std::atomic<uint8_t>[MAXE]);
    for (int i = 0; i < MAXE; ++i) acc[i] = 0;
    gIrqAcc = acc.get(); gIrqMax = MAXE; gIrqMachines = M; gIrqNext = 100;
    for (int i = 0; i < M; ++i) gIrqM[i] = ms[i].get();
    std::atomic<long> got{0};
    // interrupt-safe events have no arguments: unique event ids arrive at the failed-transition callback
    std::vector<uint8_t> cnt(MAXE, 0);
    std::vector<int> seenOrder;
    for (int i = 0; i < M; ++i) ms[i]->hook = [&, i](const Rec& rec) {
        if (rec.k == 'F' && rec.pid == -1) {
            if (rec.ev < 0 || rec.ev >= MAXE) { viol("irq:unknown", "unknown event delivered"); return; }
            if (rec.ev % M != i) viol("irq:wrong-machine", "interrupt-safe event was delivered to another state machine");
            cnt[rec.ev]++; seenOrder.push_back(rec.ev); got.fetch_add(1);
        }
    };
    pert::seedBase = r.next();
    pert::irqAllocs = 0;
    pert::level = level;
    gIrqOn = true;
#if defined(DISP_ARDUINO)
    // on the polling thread: it must not be inside of a section which didn't mask anything
    onDispatcher(disp, [sigs]() { ardu::useSignals = sigs; }, "irq-on");
#endif
    struct sigaction sa {}; sa.sa_handler = onSig; sigaction(SIGUSR1, &sa, nullptr);
    phase("irq:idle");
    // a dispatcher which sleeps for a while is woken up by the interrupt-safe event alone
    if (idleOnly || r.chance(15)) for (int k = 0; k < 3; ++k) {
        pert::level = 0;
        for (int b = 0; b < 3; ++b) onDispatcher(disp, []() {}, "barrier");
        pert::nap(4000);
        long before = got.load();
        int id = gIrqNext.load();
        if (sigs && !SINGLE && r.chance(50)) pthread_kill(pthread_self(), SIGUSR1); else api([&]() { irqPost(); });
        if (acc[id].load() != 1) viol("irq:idle-refused", "refused while the queue is empty");
        else if (!stuckWait([&]() { return got.load() > before; }, 15000)) fatal("irq:idle-lost", "an accepted interrupt-safe event did not wake up the idle dispatcher");
        R.add("idle_wakeups");
        pert::level = level;
    }
    phase("irq:post");
    std::shared_ptr<Gate> g;
    if (gate) g = closeGate(disp);
    if (gate) {   // dispatcher cannot drain: capacity is exact
        size_t okc = 0, tries = cap + 3;
        for (size_t i = 0; i < tries; ++i) { int id = gIrqNext.load(); irqPost(); if (acc[id].load() == 1) ++okc; }
        if (okc > cap) viol("irq:over-capacity", "accepted " + std::to_string(okc) + " events with a capacity of " + std::to_string(cap));
        if (okc < cap) viol("irq:early-refusal", "accepted only " + std::to_string(okc) + " events with a capacity of " + std::to_string(cap));
        R.add("overflow_cases");
        g->open();
    }
    std::vector<std::thread> th;
    std::vector<pthread_t> targets;
    std::atomic<bool> stopSig{false};
    std::vector<int> normCount(P, 0);
    std::atomic<int> live{P};
    std::atomic<bool> hold{true};
    for (int p = 0; p < P; ++p) {
        uint64_t s = r.next();
        th.emplace_back([&, p, s]() {
            Rng pr(s);
            for (int k = 0; k < N; ++k) {
                if (normal && pr.chance(50)) ms[0]->hsm->transitionWithArgsArray(E_GO, argv3(p, normCount[p]++, E_GO));
                else irqPost();
                gProgress.fetch_add(1);
                if (pr.chance(30)) pert::nap(1 + pr.below(100));
            }
            live.fetch_sub(1);
            while (hold.load()) pert::nap(50);     // stays a valid signal target
        });
        targets.push_back(th.back().native_handle());
    }
    if (!SINGLE || sigs) targets.push_back(loopThread);
    if (sigs) {
        int storms = r.range(10, 150);
        for (int k = 0; k < storms; ++k) {
            pthread_kill(targets[r.below((int)targets.size())], SIGUSR1);
            gProgress.fetch_add(1);
            if (r.chance(60)) pert::nap(1 + r.below(120)); else sched_yield();
        }
    } else if (SINGLE) for (int k = 0; k < N; ++k) api([&]() { irqPost(); });
    stuckWait([&]() { return live.load() == 0; });
    hold = false;
    for (auto& t : th) t.join();
    pert::nap(300);
    gIrqOn = false;
    stuckWait([&]() { return gIrqBusy.load() == 0; }, 5000);
#if defined(DISP_ARDUINO)
    onDispatcher(disp, []() { ardu::useSignals = false; }, "irq-off");
#endif
    phase("irq:drain");
    auto accepted = [&]() { long n = 0; for (int i = 100; i < gIrqNext.load() && i < MAXE; ++i) n += acc[i].load() == 1; return n; };
    auto normals = [&]() { long n = 0; for (int c : normCount) n += c; return n; };
    const long firstWait = 15000;
    bool ok = stuckWait([&]() { return got.load() >= accepted(); }, firstWait);
    if (!ok) {
        // does an unrelated wakeup deliver the rest?
        api([&]() { ms[0]->hsm->transitionWithArgsArray(E_SELF, argv3(777, 0, E_SELF)); });
        bool later = stuckWait([&]() { return got.load() >= accepted(); }, 8000);
        if (later) { viol("irq:late-until-next-wakeup:" + std::string(DISP_NAME), "accepted interrupt-safe events were not processed until an unrelated event woke up the dispatcher"); }
        else fatal("irq:lost", "accepted interrupt-safe events were not processed: " + std::to_string(got.load()) + "/" + std::to_string(accepted()));
    }
    if (!stuckWait([&]() { long d = 0; for (auto& m : ms) d += m->done.load(); return d >= got.load() + normals(); })) fatal("irq:normal-lost", "ordinary events posted next to interrupt-safe events were lost");
    phase("irq:recover");
    // capacity is available again
    for (int round = 0; round < 2 && !idleOnly; ++round) {
        long n = 0;
        std::shared_ptr<Gate> g2;
        auto fill = [&]() { for (size_t i = 0; i < cap; ++i) { int id = gIrqNext.load(); irqPost(); if (acc[id].load() == 1) ++n; } };
        if (SINGLE) api(fill); else { g2 = closeGate(disp); fill(); g2->open(); }
        if (n != (long)cap) viol("irq:capacity-lost", "after all events were processed only " + std::to_string(n) + " of " + std::to_string(cap) + " are accepted");
        if (!stuckWait([&]() { return got.load() >= accepted(); }, firstWait)) {
            api([&]() { ms[0]->hsm->transitionWithArgsArray(E_SELF, argv3(778, round, E_SELF)); });
            if (stuckWait([&]() { return got.load() >= accepted(); }, 8000)) viol("irq:late-until-next-wakeup:" + std::string(DISP_NAME), "accepted interrupt-safe events were not processed until an unrelated event woke up the dispatcher");
            else fatal("irq:lost", "accepted interrupt-safe events were not processed");
        }
    }
    pert::level = 0;
    for (int k = 0; k < 3; ++k) onDispatcher(disp, []() {}, "barrier");
    long nacc = 0, nref = 0;
    int top = std::min(gIrqNext.load(), MAXE);
    for (int i = 100; i < top; ++i) {
        int a = acc[i].load();
        if (a == 1) { ++nacc; if (cnt[i] != 1) viol("irq:count", "accepted event processed " + std::to_string((int)cnt[i]) + " times"); }
        else if (a == 2) { ++nref; if (cnt[i] != 0) viol("irq:refused-processed", "refused event was processed"); }
    }
    std::string dn = DISP_NAME;
    // toolkits which allocate in their own post functions are exempt (see properties.jsonl)
    if (dn != "qt" && dn != "glibmm" && pert::irqAllocs.load()) viol("irq:alloc", "interrupt-safe call allocated memory " + std::to_string(pert::irqAllocs.load()) + " times");
    releaseAll(disp, ms);
    R.add("irq_accepted", nacc); R.add("irq_refused", nref); R.add("irq_signals", gSigPosts.exchange(0)); 
    uint64_t h = 5; for (int e : seenOrder) { h ^= (uint64_t)e; h *= 1099511628211ull; }
    R.note(h);
    for (int i = 0; i < 3; ++i) gIrqM[i] = nullptr;
    ms.clear();
    H.destroy(disp);
    if (idx % 61 == 0) R.sample(ds.str() + " accepted=" + std::to_string(nacc) + " refused=" + std::to_string(nref));
}

// ---------------------------------------------------------------- diff: C16, C24, C10 - random machines against the model
struct DiffM {
    Spec sp;
    std::unique_ptr<Model> m;
    std::unique_ptr<Real> x;
    Rng r{1};
    std::atomic<long> len{0};
    std::string history;
    int waiter = 0;
    bool posts = false;
    bool dead = false;
};
static std::string joinT(const std::vector<std::string>& t, size_t from, size_t n = 80) { std::string s; for (size_t i = from; i < t.size() && i < from + n; ++i) s += t[i] + " "; return s; }

static void caseDiff(uint64_t seed, long idx) {
    Rng r(seed * 86028121 + (uint64_t)idx);
    Host& H = Host::get();
    int K = r.chance(25) ? 1 : r.range(2, 4);
    int level = tsanBuild() ? 0 : r.below(3);
    bool noise = K > 1 && r.chance(60);
    std::ostringstream ds;
    ds << "diff disp=" << DISP_NAME << " seed=" << seed << " case=" << idx << " machines=" << K << " perturb=" << level << " noise=" << noise;
    desc(ds.str());
    phase("diff:setup");
    pert::level = 0;
    auto disp = H.make();
    LoopMon mon;
    std::vector<std::unique_ptr<DiffM>> ms;
    for (int k = 0; k < K; ++k) {
        std::unique_ptr<DiffM> d(new DiffM);
        Profile p;
        p.cbMissing = 0; p.steps = 0; p.hist = r.chance(40) ? 45 : 0; p.finals = r.chance(40) ? 25 : 0; p.refuse = r.chance(40) ? 40 : 0; p.posts = r.chance(30) ? 20 : 0; p.richArgs = 40;
        p.maxStates = 8;
        d->r = Rng(r.next());
        d->sp = genSpec(d->r, p);
        d->sp.failedCb = true;
        for (auto& t : d->sp.tr) t.cb = true;
        d->posts = p.posts > 0;
        d->m.reset(new Model(d->sp));
        d->x.reset(new Real(d->sp));
        ms.push_back(std::move(d));
    }
    auto failM = [&](DiffM& d, const std::string& key, const std::string& msg) {
        if (d.dead) return;
        d.dead = true;
        viol("diff:" + key, msg, d.sp.dump() + "history:\n" + d.history + "\nmodel: " + joinT(d.m->env.trace, 0, 300) + "\nreal:  " + joinT(d.x->env.trace, 0, 300));
    };
    for (auto& dp : ms) {
        DiffM& d = *dp;
        d.x->build();
        d.m->env.post = [&d](int kind, int ev, const std::vector<Val>& v) { d.m->postRegular(ev, mkArgs(v), -1, kind == 2); };
        d.x->env.post = [&d](int kind, int ev, const std::vector<Val>& v) {
            if (kind == 2) d.x->hsm->transitionWithQueueClear(d.sp.evId[ev], toVariant(v[0]), toVariant(v[1]));
            else d.x->hsm->transitionWithArgsArray(d.sp.evId[ev], Real::vlist(v));
        };
        d.x->env.onTok = [&d, &mon]() { mon.enter("machine"); d.len.fetch_add(1); mon.leave(); };
        d.m->env.postBudget = d.x->env.postBudget = 3;
        d.m->startup();
        long n = 0;
        while (d.m->step() && ++n < 400) {}
        if (n >= 400) { d.dead = true; continue; }
    }
    // machines whose posts race with startup are initialized with the loop blocked by this call only on main-loop dispatchers
    for (auto& dp : ms) if (!dp->dead) H.onLoop([&]() { tlInit = true; if (!dp->x->hsm->initialize(disp)) fatal("init", "initialize failed"); tlInit = false; });
    onDispatcher(disp, [&]() { mon.loop = LoopMon::me(); }, "loop-id");
    auto settle = [&](DiffM& d, const std::string& what) {
        if (d.dead) return false;
        long want = (long)d.m->env.trace.size();
        bool got = stuckWait([&]() { return d.len.load() >= want; }, 8000);
        onDispatcher(disp, []() {}, "barrier");
        if (d.m->unspecified) { d.dead = true; return false; }
        auto &mt = d.m->env.trace, &xt = d.x->env.trace;
        bool same = false; std::string diff;
        std::vector<int> act;
        bool actOk = true;
        onDispatcher(disp, [&]() {
            same = mt == xt;
            if (!same) { size_t a = 0; while (a < mt.size() && a < xt.size() && mt[a] == xt[a]) ++a; diff = "position " + std::to_string(a) + ": expected " + (a < mt.size() ? mt[a] : "<nothing>") + " observed " + (a < xt.size() ? xt[a] : "<nothing>"); }
            act = d.x->active();
            actOk = act == d.m->active;
        }, "compare");
        if (!same) { failM(d, what + (got ? ":callbacks" : ":missing-callbacks"), "callback stream differs at " + diff); return false; }
        if (!actOk) { failM(d, what + ":active", "active states expected " + joinInts(d.m->active) + " observed " + joinInts(act)); return false; }
        return true;
    };
    pert::seedBase = r.next();
    pert::level = level;
    phase("diff:drive");
    std::atomic<bool> stopNoise{false};
    std::thread nt;
    std::atomic<long> noiseMachines{0};
    if (noise) nt = std::thread([&, s = r.next()]() {
        Rng nr(s);
        while (!stopNoise) {
            auto v = mkObs(mon, 1, nr, 0);
            Obs& o = *v[0];
            H.onLoop([&]() { if (!o.init(disp)) fatal("init", "initialize failed"); });
            int n = nr.range(0, 30);
            for (int i = 0; i < n; ++i) { api([&]() { o.hsm->transitionWithArgsArray(nr.chance(50) ? E_GO : E_CHILD, argv3(1, i, 0)); }); if (nr.chance(10)) pert::nap(50); }
            if (nr.chance(30)) api([&]() { (void)o.hsm->transitionInterruptSafe(4711); });
            if (nr.chance(50)) { long w = n; stuckWait([&]() { return o.done.load() >= w; }); }
            onDispatcher(disp, [&]() { if (nr.chance(50)) o.hsm->release(); else o.hsm.reset(); }, "release");
            o.released = true;
            noiseMachines.fetch_add(1);
            gProgress.fetch_add(1);
        }
    });
    std::vector<std::thread> th;
    for (auto& dp : ms) {
        if (dp->dead) continue;
        th.emplace_back([&, pd = dp.get()]() {
            DiffM& d = *pd;
            Rng& q = d.r;
            if (!settle(d, "startup")) return;
            int steps = q.range(5, 20);
            for (int st = 0; st < steps && !d.dead; ++st) {
                uint64_t re = 0, rx = 0;
                if (q.chance(30)) for (size_t s = 0; s < d.sp.st.size(); ++s) { if (q.chance(15)) re |= 1ull << s; if (q.chance(12)) rx |= 1ull << s; }
                onDispatcher(disp, [&]() { d.x->env.refuseEnter = re; d.x->env.refuseExit = rx; d.x->env.postBudget = 3; }, "config");
                d.m->env.refuseEnter = re; d.m->env.refuseExit = rx; d.m->env.postBudget = 3;
                auto mk = [&]() { std::vector<Val> v; Val g; g.i = q.below(16); v.push_back(g); if (q.chance(60)) { Val u; u.t = 's'; u.s = "u" + std::to_string(st); v.push_back(u); } while (q.chance(30) && v.size() < 5) v.push_back(randVal(q)); return v; };
                auto pick = [&]() { if (q.chance(70)) { std::vector<int> c2; for (auto& t : d.sp.tr) if (d.m->isActive(t.from)) c2.push_back(t.event); if (!c2.empty()) return c2[q.below((int)c2.size())]; } return q.below((int)d.sp.evId.size()); };
                int mode = q.below(SINGLE ? 2 : 4);
                int n = mode == 1 ? q.range(2, 5) : 1;
                struct Pv { int ev; std::vector<Val> v; bool clear; };
                std::vector<Pv> batch;
                for (int j = 0; j < n; ++j) batch.push_back({pick(), mk(), mode == 1 && q.chance(15)});
                int w = mode == 3 ? ++d.waiter : -1;
                for (auto& b : batch) { d.m->postRegular(b.ev, mkArgs(b.v), w, b.clear); d.history += "  event " + std::to_string(b.ev) + (mode == 3 ? " sync" : mode == 2 ? " async" : mode == 1 ? " batch" : "") + (b.clear ? " CLEAR" : "") + " mask=" + std::to_string(b.v[0].i) + " refE=" + std::to_string(re) + " refX=" + std::to_string(rx) + "\n"; }
                long guard = 0;
                while (d.m->step() && ++guard < 400) {}
                if (guard >= 400) { d.dead = true; break; }
                if (d.m->unspecified) { d.dead = true; break; }
                if (mode == 3) {
                    bool got = d.x->hsm->transitionExWithArgsArray(d.sp.evId[batch[0].ev], false, true, 60000, Real::vlist(batch[0].v));
                    bool want = d.m->waiterStatus.count(w) && d.m->waiterStatus[w] == 1;
                    if (got != want) { failM(d, "sync", std::string("synchronous transition returned ") + (got ? "true" : "false") + " expected " + (want ? "true" : "false")); break; }
                } else if (mode == 1) {     // post the whole batch before the dispatcher can process any of it
                    auto post = [&]() { for (auto& b : batch) { if (b.clear) d.x->hsm->transitionExWithArgsArray(d.sp.evId[b.ev], true, false, 0, Real::vlist(b.v)); else d.x->hsm->transitionWithArgsArray(d.sp.evId[b.ev], Real::vlist(b.v)); } };
#if defined(DISP_STD)
                    onDispatcher(disp, post, "batch");
#else
                    H.onLoop(post);
#endif
                } else { for (auto& b : batch) { auto a = Real::vlist(b.v); api([&]() { d.x->hsm->transitionWithArgsArray(d.sp.evId[b.ev], std::move(a)); }); } }
                gProgress.fetch_add(1);
                if (!settle(d, "step")) break;
                R.add("diff_steps");
            }
        });
    }
    for (auto& t : th) t.join();
    stopNoise = true;
    if (nt.joinable()) nt.join();
    pert::level = 0;
    phase("diff:release");
    uint64_t h = 9;
    for (auto& dp : ms) {
        onDispatcher(disp, [&]() { dp->x->hsm->release(); }, "release");
        std::string all; for (auto& t : dp->x->env.trace) all += t;
        h = h * 31 + hashStr(all);
        R.add("diff_callbacks", (long)dp->x->env.trace.size());
        for (auto& k : dp->m->cov) R.add("seen." + k.first, k.second);
    }
    R.add("noise_machines", noiseMachines.load());
    if (K > 1) R.add("shared_cases");
    R.note(h);
    if (idx % 61 == 0) R.sample(ds.str() + "\n" + ms[0]->sp.dump() + ms[0]->history.substr(0, 400));
    ms.clear();
    H.destroy(disp);
}

int main(int argc, char** argv) {
    Options o(argc, argv);
    gOut = o.str("out", "/dev/null");
    std::string modes = o.str("mode", "fifo");
    uint64_t seed = (uint64_t)o.num("seed", 1);
    long cases = o.num("cases", 100), only = o.num("only", -1);
    std::vector<std::string> ml;
    std::stringstream ss(modes);
    for (std::string t; std::getline(ss, t, ',');) ml.push_back(t);
    Host::get().run([&]() {
        Watchdog wd(45000);
        for (long i = 0; i < cases; ++i) {
            if (only >= 0 && i != only) continue;
            const std::string& m = ml[i % ml.size()];
            R.eval();
            if (m == "fifo") caseFifo(seed, i);
            else if (m == "actions") caseActions(seed, i);
            else if (m == "sync") caseSync(seed, i);
            else if (m == "clear") caseClear(seed, i);
            else if (m == "cleargate") caseClearGate(seed, i);
            else if (m == "irq") caseIrq(seed, i);
            else if (m == "diff") caseDiff(seed, i);
            if (R.nviol() >= 6) break;
        }
        long burst = o.num("burst", 0);
        if (burst) caseBurst(seed, 0, (int)burst);
        R.add("perturbation_points", pert::points.load());
        R.add("injected_delays", pert::delays.load());
    });
    R.write(gOut);
    finishProcess();
}
