// Life cycle of state machines, dispatchers and handlers: C14 (and C13 in sanitizer builds).
// modes: machines  machines are released or destroyed at random moments of a busy dispatcher, which is itself stopped or dropped
//        handlers  raw handlers registered, called and removed from several threads
//        disp      random sequences of start, stop, join and use of dispatchers
#include "dispmon.hpp"

namespace vh { Result R; std::string gOut = "/dev/null"; }
using namespace vh;

#if defined(DISP_ARDUINO)
constexpr bool SINGLE = true;
#else
constexpr bool SINGLE = false;
#endif
// everything must be done on the thread of the loop, except posting events
constexpr bool ONLOOP = LOOP_ON_MAIN || SINGLE;
static bool tsanBuild() {
#if defined(__SANITIZE_THREAD__)
    return true;
#else
    return false;
#endif
}

// ---------------------------------------------------------------- machines
enum Kill { K_NONE, K_REL_ACTION, K_REL_OWN, K_REL_OTHER, K_REL_DRIVER, K_DEL_DRIVER, K_DEL_ACTION, K_DEL_OWN, K_DEL_OTHER, K_COUNT };
static const char* killName[] = {"none", "rel-action", "rel-own-callback", "rel-other-callback", "rel-driver", "del-driver", "del-action", "del-own-callback", "del-other-callback"};

struct LM {
    LoopMon& mon;
    int idx;
    std::unique_ptr<HierarchicalStateMachine> hsm;
    std::atomic<bool> gone{false};          // release() has returned outside of this machine's callbacks
    std::atomic<bool> asked{false};         // release was requested (possibly inside of a callback)
    std::atomic<bool> usersLeave{false};    // external threads must not touch the object any more
    std::atomic<int> users{0};
    std::atomic<long> cb{0}, events{0}, actEnter{0};
    long killAt = -1;                       // number of the callback which performs the kill
    std::function<void()> kill;
    std::function<void()> onCb;             // hook used by other machines
    long callbacksAfterAsk = 0;
    int timerA, timerB;
    std::atomic<long> timerEvents{0};
    LM(LoopMon& m, int i) : mon(m), idx(i), timerA(100 + i * 2), timerB(101 + i * 2) {}

    void on(const char* w) {
        CbScope s(mon, w);
        if (gone.load()) viol(std::string("callback-after-release:") + w, std::string(w) + " callback of a machine after its release returned");
        long n = cb.fetch_add(1) + 1;
        // the transition in progress may be completed, but no other event: at most 6 callbacks of one transition follow
        if (asked.load() && ++callbacksAfterAsk > 8) viol("events-after-release", "a machine which was released inside of a callback continues to process events");
        if (n == killAt && kill) { auto k = kill; asked = true; k(); }
        if (onCb) { auto f = onCb; onCb = nullptr; f(); }
    }
    void build() {
        hsm.reset(new HierarchicalStateMachine(S_IDLE));
        for (int s : {S_IDLE, S_WORK, S_W1, S_W2})
            hsm->registerState(s, [this](const VariantVector_t&) { on("state"); }, [this](const VariantVector_t&) { on("enter"); return true; }, [this]() { on("exit"); return true; });
        hsm->registerSubstateEntryPoint(S_WORK, S_W1);
        hsm->registerSubstate(S_WORK, S_W2);
        auto t = [this](const VariantVector_t&) { events.fetch_add(1); on("transition"); };
        hsm->registerSelfTransition(S_IDLE, E_SELF, TransitionType::INTERNAL_TRANSITION, t);
        hsm->registerSelfTransition(S_WORK, E_SELF, TransitionType::INTERNAL_TRANSITION, t);
        auto tt = [this](const VariantVector_t&) { timerEvents.fetch_add(1); on("timer"); };
        hsm->registerSelfTransition(S_IDLE, E_RARE, TransitionType::INTERNAL_TRANSITION, tt);
        hsm->registerSelfTransition(S_WORK, E_RARE, TransitionType::INTERNAL_TRANSITION, tt);
        hsm->registerTransition(S_IDLE, S_WORK, E_GO, t);
        hsm->registerTransition(S_WORK, S_IDLE, E_GO, t);
        hsm->registerTransition(S_W1, S_W2, E_CHILD, t);
        hsm->registerTransition(S_W2, S_W1, E_CHILD, t);
        hsm->registerFailedTransitionCallback([this](const std::list<StateID_t>&, const EventID_t, const VariantVector_t&) { events.fetch_add(1); on("failed"); });
        hsm->registerTimer(timerA, E_RARE);
        hsm->registerTimer(timerB, E_SELF);
    }
    // external use which must not overlap with destruction
    bool use(const std::function<void(HierarchicalStateMachine&)>& f) {
        users.fetch_add(1);
        bool ok = !usersLeave.load();
        if (ok) f(*hsm);
        users.fetch_sub(1);
        return ok;
    }
};

static void pauseSome(Rng& r) { int k = r.below(4); if (k == 1) sched_yield(); else if (k == 2) pert::nap(1 + r.below(300)); else if (k == 3) pert::nap(500 + r.below(2500)); }

static void caseMachines(uint64_t seed, long idx) {
    Rng r(seed * 86028121 + (uint64_t)idx);
    Host& H = Host::get();
    int level = tsanBuild() ? 0 : r.below(4);
    int M = r.range(1, 4), P = SINGLE ? 0 : r.range(0, 3);
    bool timers = r.chance(60), syncUsers = r.chance(60), irqUsers = r.chance(40);
    int dispEnd = r.below(5);       // 0 stop after machines are gone, 1 stop while machines live, 2 stop inside an action, 3 drop the last reference on the driver, 4 drop the last reference inside an action
    bool reverse = r.chance(50);
    if (SINGLE && (dispEnd == 2 || dispEnd == 4)) dispEnd = 1;
    std::ostringstream ds;
    ds << "machines disp=" << DISP_NAME << " seed=" << seed << " case=" << idx << " machines=" << M << " producers=" << P << " perturb=" << level << " timers=" << timers << " sync=" << syncUsers << " irq=" << irqUsers << " dispatcher-end=" << dispEnd << " kills:";
    LoopMon mon;
    phase("machines:setup");
    pert::level = 0;
    auto disp = H.make(r.chance(30) ? (size_t)r.range(1, 6) : 0);
    std::vector<std::unique_ptr<LM>> ms;
    std::vector<int> kills;
    for (int i = 0; i < M; ++i) {
        ms.emplace_back(new LM(mon, i));
        int k = r.chance(25) ? K_NONE : r.range(1, K_COUNT - 1);
        if (M < 2 && (k == K_REL_OTHER || k == K_DEL_OTHER)) k = K_REL_ACTION;
        if (ONLOOP && (k == K_REL_DRIVER || k == K_DEL_DRIVER)) k = k == K_REL_DRIVER ? K_REL_ACTION : K_DEL_ACTION;
        kills.push_back(k);
        ds << " " << killName[k];
    }
    desc(ds.str());
    onDispatcher(disp, [&]() { mon.loop = LoopMon::me(); }, "loop-id");
    for (auto& m : ms) { m->build(); H.onLoop([&]() { tlInit = true; if (!m->hsm->initialize(disp)) viol("init", "initialize() failed"); tlInit = false; }); }
    std::weak_ptr<Disp> wdisp = disp;
    // plan the kills which happen inside of callbacks
    for (int i = 0; i < M; ++i) {
        LM& m = *ms[i];
        long at = m.cb.load() + 1 + r.below(r.chance(50) ? 10 : 60);
        auto later = [&m, wdisp]() { if (auto d = wdisp.lock()) d->enqueueAction([&m]() { m.gone = true; }); };
        if (kills[i] == K_REL_OWN) { m.killAt = at; m.kill = [&m, later]() { m.hsm->release(); later(); R.add("kills_in_callbacks"); }; }
        // destruction inside of an own callback: the object must not be touched by other threads afterwards
        if (kills[i] == K_DEL_OWN) { m.killAt = at; m.kill = [&m, later]() { m.hsm.reset(); later(); R.add("kills_in_callbacks"); }; }
        if (kills[i] == K_REL_OTHER || kills[i] == K_DEL_OTHER) {
            LM& o = *ms[(size_t)((i + 1 + (int)r.below(M - 1)) % M)];
            bool del = kills[i] == K_DEL_OTHER;
            auto f = [&m, del]() { if (!m.hsm) return; m.asked = true; if (del) m.hsm.reset(); else m.hsm->release(); m.gone = true; R.add("kills_in_callbacks"); };
            if (o.killAt < 0 && !o.kill) { o.killAt = o.cb.load() + 1 + r.below(30); auto k = f; o.kill = [k, &o]() { o.asked = false; k(); }; }
            else kills[i] = del ? K_DEL_ACTION : K_REL_ACTION;
        }
    }
    auto deletedByCallback = [&](int i) { return kills[i] == K_DEL_OWN || kills[i] == K_DEL_OTHER; };
    phase("machines:drive");
    pert::seedBase = r.next();
    pert::level = level;
    std::atomic<bool> stop{false}, noClear{false}, halted{false};
    std::atomic<int> running{P};
    std::atomic<long> posted{0}, syncTrue{0}, syncFalse{0};
    std::vector<std::thread> th;
    uint64_t s0 = r.next();
    for (int p = 0; p < P; ++p)
        th.emplace_back([&, p]() {
            Rng q(s0 + (uint64_t)p * 7919);
            long sent = 0;
            while (!stop.load()) {
                int i = q.below(M);
                LM& m = *ms[i];
                if (deletedByCallback(i)) { sched_yield(); continue; }    // nobody else may use it
                int w = q.below(100);
                m.use([&](HierarchicalStateMachine& h) {
                    if (w < 45) h.transition(q.chance(40) ? E_SELF : q.chance(60) ? E_GO : E_CHILD, 1, 2);
                    else if (w < 60 && syncUsers) { if (h.transitionEx(q.chance(50) ? E_SELF : E_GO, q.chance(10) && !noClear.load(), true, q.chance(60) ? 0 : q.range(1, 5))) syncTrue.fetch_add(1); else syncFalse.fetch_add(1); }
                    else if (w < 75 && irqUsers) h.transitionInterruptSafe(E_SELF);
                    else if (w < 85 && timers) { int t = q.chance(50) ? m.timerA : m.timerB; if (q.chance(50)) h.startTimer(t, (unsigned)q.range(1, 4), q.chance(50)); else if (q.chance(50)) h.restartTimer(t); else h.stopTimer(t); }
                    else if (w < 90) { if (!noClear.load()) h.transitionWithQueueClear(E_SELF); }
                    else if (w < 95) (void)h.isInitialized();
                    else { auto d = h.dispatcher().lock(); (void)d; }
                });
                posted.fetch_add(1);
                gProgress.fetch_add(1);
                if (q.chance(15)) sched_yield();
                if (q.chance(20)) pert::nap(1 + q.below(200));
                if (sent > 200) pert::nap(2000 + q.below(3000));     // don't flood the dispatcher
                if (++sent % 60 == 0) {
                    auto token = std::make_shared<std::atomic<bool>>(false);
                    if (auto d = wdisp.lock()) d->enqueueAction([token]() { token->store(true); });
                    for (int z = 0; z < 20000 && !token->load() && !stop.load() && !halted.load(); ++z) pert::nap(100);
                }
            }
            running.fetch_sub(1);
        });
    auto postSome = [&](int n) {
        for (int i = 0; i < n; ++i) {
            int k = r.below(M);
            LM& m = *ms[k];
            auto f = [&, k]() {
                if (!m.hsm) return;
                int w = (int)r.below(10);
                if (w < 5) m.hsm->transition(E_SELF, 1); else if (w < 8) m.hsm->transition(E_GO, 1); else if (w < 9) m.hsm->transition(E_CHILD); else m.hsm->transitionInterruptSafe(E_SELF);
                if (timers && r.chance(30)) m.hsm->startTimer(r.chance(50) ? m.timerA : m.timerB, (unsigned)r.range(1, 3), r.chance(50));
            };
            if (deletedByCallback(k) || ONLOOP) onDispatcher(disp, f, "post"); else m.use([&](HierarchicalStateMachine&) { f(); });
        }
    };
    postSome(r.range(1, 20));
    // kills performed by the driver, in random order
    std::vector<int> order;
    for (int i = 0; i < M; ++i) order.push_back(i);
    for (int i = M - 1; i > 0; --i) std::swap(order[i], order[r.below(i + 1)]);
    auto usersOut = [&](LM& m) {
        m.usersLeave = true;
        // those which wait for an event get released together with the machine
        if (!stuckWait([&]() { return m.users.load() == 0; }, 12000)) fatal("life:user-hang", "a caller of a running machine does not return");
    };
    for (int i : order) {
        LM& m = *ms[i];
        pauseSome(r);
        if (r.chance(50)) postSome(r.range(0, 4));
        if (kills[i] == K_REL_ACTION) { phase("machines:release-action"); onDispatcher(disp, [&]() { m.hsm->release(); m.gone = true; }, "release"); }
        else if (kills[i] == K_REL_DRIVER) { phase("machines:release-driver"); m.hsm->release(); m.gone = true; }
        else if (kills[i] == K_DEL_DRIVER || kills[i] == K_DEL_ACTION) {
            phase("machines:delete");
            usersOut(m);
            if (kills[i] == K_DEL_DRIVER) m.hsm.reset(); else onDispatcher(disp, [&]() { m.hsm.reset(); }, "delete");
            m.gone = true;
        }
        if (kills[i] == K_REL_ACTION || kills[i] == K_REL_DRIVER) {
            phase("machines:use-after-release");
            if (m.hsm->isInitialized()) viol("initialized-after-release", "isInitialized() is true after release()");
            if (m.hsm->dispatcher().lock()) viol("dispatcher-after-release", "dispatcher() is not empty after release()");
            if (!SINGLE && m.hsm->transitionEx(E_SELF, false, true, 0)) viol("sync-after-release", "a synchronous transition of a released machine returned true");
            m.hsm->transition(E_SELF, 1);
            m.hsm->transitionInterruptSafe(E_SELF);
            m.hsm->startTimer(m.timerA, 1, false);
            onDispatcher(disp, [&]() { if (disp->isTimerRunning(m.timerA) || disp->isTimerRunning(m.timerB)) viol("timer-after-release", "a timer of a released machine is running"); }, "timers");
        }
        R.add(std::string("kill.") + killName[kills[i]]);
    }
    pauseSome(r);
    // survivors keep working
    phase("machines:survivors");
    noClear = true;
    auto stopProducers = [&]() { stop = true; };
    std::vector<int> alive;
    for (int i = 0; i < M; ++i) if (kills[i] == K_NONE) alive.push_back(i);
    for (int i : alive) {
        LM& m = *ms[i];
        if (SINGLE) { long b = m.events.load(); onDispatcher(disp, [&]() { m.hsm->transition(E_SELF); }, "fence"); if (!stuckWait([&]() { return m.events.load() > b; })) fatal("life:survivor", "a machine does not process events after another machine on the same dispatcher was released"); }
        else {
            bool ok = false;
            for (int t = 0; t < 40 && !ok; ++t) ok = m.hsm->transitionEx(E_SELF, false, true, 30000);     // may be removed by a concurrent queue clear
            if (!ok) fatal("life:survivor", "a machine does not process events after another machine on the same dispatcher was released");
        }
        if (timers && r.chance(40)) {
            long b = m.timerEvents.load();
            auto st = [&]() { m.hsm->startTimer(m.timerA, 1, false); };
            bool fired = false;
            for (int t = 0; t < 400 && !fired; ++t) {     // concurrent users may stop it again or remove the event
                if (t % 20 == 0) { if (ONLOOP) onDispatcher(disp, st, "timer"); else st(); }
                for (int z = 0; z < 50 && !fired; ++z) { pert::nap(300); fired = m.timerEvents.load() > b; }
            }
            if (!fired) fatal("life:survivor-timer", "timers of a machine do not work after another machine on the same dispatcher was released");
        }
        R.add("survivors");
    }
    // machines to be destroyed by a callback which never came
    bool late = dispEnd != 0;
    auto finishMachine = [&](LM& m) {
        m.usersLeave = true;
        auto f = [&]() { m.hsm.reset(); };
        if (ONLOOP) H.onLoop(f); else f();
    };
    auto finishAll = [&]() {
        for (int k = 0; k < M; ++k) {
            LM& m = *ms[(size_t)(reverse ? M - 1 - k : k)];
            if (!m.hsm) continue;
            auto rel = [&]() { if (m.hsm) m.hsm->release(); };
            // release callers which wait for a stopped dispatcher before anything is destroyed
            if (ONLOOP) H.onLoop(rel); else rel();
        }
        stopProducers();
        phase("machines:join");
        for (auto& t : th) t.join();
        th.clear();
        for (auto& m : ms) if (m->hsm) finishMachine(*m);
    };
    if (!late) {
        phase("machines:end");
        stopProducers();
        for (auto& t : th) t.join();
        th.clear();
        onDispatcher(disp, []() {}, "barrier");
        auto all = [&]() { for (int k = 0; k < M; ++k) { LM& m = *ms[(size_t)(reverse ? M - 1 - k : k)]; m.hsm.reset(); m.gone = true; } };
        onDispatcher(disp, all, "end");
        onDispatcher(disp, []() {}, "barrier");
        phase("machines:destroy-dispatcher");
        H.destroy(disp);
    } else {
        phase("machines:stop-dispatcher" + std::to_string(dispEnd));
        postSome(r.range(0, 6));
        pauseSome(r);
        halted = true;
        // a machine whose destruction is planned in a callback must not be destroyed by the driver at the same time
#if defined(DISP_STD)
        if (dispEnd == 1) { disp->stop(); if (r.chance(50)) disp->stop(); disp->join(); if (r.chance(30)) disp->join(); }
        else if (dispEnd == 2) { auto* d = disp.get(); disp->enqueueAction([d]() { d->stop(); }); disp->join(); }
        else if (dispEnd == 3) {
            // callers may hold references for a moment: whoever is last destroys the dispatcher
            stopProducers();
            std::weak_ptr<Disp> w = disp;
            disp.reset();
            if (!stuckWait([&]() { return w.expired(); }, 12000)) { /* a synchronous caller waits with a reference */ }
        } else { auto keep = std::make_shared<std::shared_ptr<Disp>>(disp); auto done = std::make_shared<std::atomic<bool>>(false), go = std::make_shared<std::atomic<bool>>(false);
            stopProducers();
            for (auto& t : th) t.join();
            th.clear();
            disp->enqueueAction([keep, done, go]() { while (!go->load()) sched_yield(); keep->reset(); done->store(true); });
            keep.reset();
            disp.reset();
            go->store(true);
            if (!stuckWait([&]() { return done->load(); }, 12000)) fatal("life:drop-action", "action which releases the dispatcher was not executed");
        }
        if (dispEnd <= 2) {
            long before = 0; for (auto& m : ms) before += m->cb.load();
            pert::nap(1500);
            long after = 0; for (auto& m : ms) after += m->cb.load();
            if (after != before) viol("callback-after-join", "callbacks after the dispatcher was stopped and joined");
        }
#else
        if (!SINGLE) { stopProducers(); }
        if (dispEnd == 1) H.onLoop([&]() { disp->stop(); if (r.chance(50)) disp->stop(); });
        else if (dispEnd == 2) { auto* d = disp.get(); auto done = std::make_shared<std::atomic<bool>>(false); disp->enqueueAction([d, done]() { d->stop(); done->store(true); }); if (!stuckWait([&]() { return done->load(); }, 12000)) fatal("life:stop-action", "action was not executed"); }
        else if (dispEnd == 3 || dispEnd == 4) {
            // in-flight callers must return before the last reference is dropped on the loop's thread
            for (int k = 0; k < M; ++k) { LM& m = *ms[(size_t)k]; H.onLoop([&]() { if (m.hsm) m.hsm->release(); }); }
            for (auto& t : th) t.join();
            th.clear();
#if defined(DISP_ARDUINO)
            H.onLoop([&]() { H.polled.reset(); disp.reset(); });
#else
            if (dispEnd == 3) H.onLoop([&]() { disp.reset(); });
            else { auto keep = std::make_shared<std::shared_ptr<Disp>>(disp); auto done = std::make_shared<std::atomic<bool>>(false), go = std::make_shared<std::atomic<bool>>(false); disp->enqueueAction([keep, done, go]() { while (!go->load()) sched_yield(); keep->reset(); done->store(true); }); keep.reset(); disp.reset(); go->store(true); if (!stuckWait([&]() { return done->load(); }, 12000)) fatal("life:drop-action", "action which releases the dispatcher was not executed"); }
#endif
        }
        if (dispEnd <= 2) {
            long before = 0, after = 0;
            H.onLoop([&]() { for (auto& m : ms) before += m->cb.load(); });
            pert::nap(1500);
            H.onLoop([]() {});
            H.onLoop([&]() { for (auto& m : ms) after += m->cb.load(); });
            if (after != before) viol("callback-after-stop", "callbacks after the dispatcher was stopped");
        }
#endif
        phase("machines:finish");
        if (r.chance(50)) for (auto& m : ms) if (m->hsm && !m->usersLeave.load() && !ONLOOP) m->hsm->transition(E_SELF);
        finishAll();
        phase("machines:drop-dispatcher");
        if (disp) {
#if defined(DISP_ARDUINO)
            H.onLoop([&]() { H.polled.reset(); });
#endif
            H.onLoop([&]() { disp.reset(); });
        }
    }
    pert::level = 0;
    for (auto& t : th) t.join();
    uint64_t h = hashStr(ds.str());
    for (auto& m : ms) { R.add("callbacks", m->cb.load()); h = h * 1099511628211ull ^ (uint64_t)m->cb.load(); }
    R.add("posted", posted.load()); R.add("sync_true", syncTrue.load()); R.add("sync_false", syncFalse.load()); R.add("dispatcher_end." + std::to_string(dispEnd));
    R.note(h);
    if (idx % 61 == 0) R.sample(ds.str() + " posted=" + std::to_string(posted.load()));
    // deferred destruction of toolkit dispatchers
    for (int i = 0; i < 3; ++i) H.onLoop([]() {});
    ms.clear();
}

// ---------------------------------------------------------------- handlers
struct HS { std::atomic<int> id{INVALID_HSM_DISPATCHER_HANDLER_ID}; std::atomic<int> state{0}; /* 0 new 1 registered 2 removed */ std::atomic<long> emits{0}, calls{0}; int kind = 0; bool viaLoop = false; };
static void caseHandlers(uint64_t seed, long idx) {
    Rng r(seed * 122949823 + (uint64_t)idx);
    Host& H = Host::get();
    int level = tsanBuild() ? 0 : r.below(4);
    int N = r.range(2, 14), T = SINGLE ? 0 : r.range(1, 4);
    std::ostringstream ds;
    ds << "handlers disp=" << DISP_NAME << " seed=" << seed << " case=" << idx << " handlers=" << N << " threads=" << T << " perturb=" << level;
    desc(ds.str());
    phase("handlers:setup");
    pert::level = 0;
    size_t cap = r.chance(50) ? 10 : (size_t)r.range(1, 40);
    auto disp = H.make(cap);
    LoopMon mon;
    onDispatcher(disp, [&]() { mon.loop = LoopMon::me(); }, "loop-id");
    std::vector<std::unique_ptr<HS>> hs;
    for (int i = 0; i < N; ++i) { hs.emplace_back(new HS); hs.back()->kind = r.below(3); hs.back()->viaLoop = r.chance(50); }
    std::atomic<int> victim{-1};
    IHsmEventDispatcher& D = *disp;
    auto unreg = [&](HS& h) {
        if (h.kind == 0) D.unregisterEventHandler(h.id.load());
        else if (h.kind == 1) D.unregisterEnqueuedEventHandler(h.id.load());
        else D.unregisterTimerHandler(h.id.load());
    };
    auto called = [&](HS& h, const char* w) {
        long n = h.calls.fetch_add(1) + 1;
        gProgress.fetch_add(1);
        (void)n;
        if (h.state.load() == 2) viol(std::string("handler-after-removal:") + w, std::string(w) + " handler called after its removal");
        if (h.kind == 2) return;          // timer handlers may run on the timers thread and must not use the dispatcher's handlers
        CbScope s(mon, w);
        int v = victim.exchange(-1);      // removes another (or the same) handler from inside a callback
        if (v >= 0 && v < N) { HS& o = *hs[(size_t)v]; if (o.kind != 2 && o.state.load() == 1) { unreg(o); o.state = 2; R.add("removed_in_handler"); } }
    };
    auto reg = [&](HS& h) {
        HS* p = &h;
        int id = 0;
        if (h.kind == 0) id = D.registerEventHandler([p, &called]() { called(*p, "event"); return true; });
        else if (h.kind == 1) id = D.registerEnqueuedEventHandler([p, &called](const EventID_t) { called(*p, "enqueued"); return true; });
        else id = D.registerTimerHandler([p, &called](const TimerID_t) { called(*p, "timer"); return true; });
        h.id = id;
        h.state = 1;
    };
    // all handlers are registered before the others can use their ids
    std::set<int> ids;
    // many short-lived handlers in between: the ids of handlers which are still registered are not given out again
    long churn = tsanBuild() ? 0 : r.chance(3) ? 70000 : r.chance(30) ? r.range(1, 700) : 0;
    std::atomic<long> ghost{0};
    H.onLoop([&]() {
        size_t at = (size_t)r.range(1, N - 1), k = 0;
        for (auto& h : hs) {
            reg(*h);
            if (!ids.insert(h->id.load()).second) viol("handler-id", "two handlers got the same id");
            if (++k != at) continue;
            for (long c = 0; c < churn; ++c) {
                int id = c % 3 == 0 ? D.registerEventHandler([&ghost]() { ++ghost; return true; })
                       : c % 3 == 1 ? D.registerEnqueuedEventHandler([&ghost](const EventID_t) { ++ghost; return true; })
                                    : D.registerTimerHandler([&ghost](const TimerID_t) { ++ghost; return true; });
                if (ids.count(id)) { viol("handler-id", "the id of a registered handler was given to another one"); break; }
                if (c % 3 == 0) D.unregisterEventHandler(id); else if (c % 3 == 1) D.unregisterEnqueuedEventHandler(id); else D.unregisterTimerHandler(id);
                if ((c & 1023) == 0) gProgress.fetch_add(1);
            }
        }
        R.add("short_lived_handlers", churn);
    });
    phase("handlers:drive");
    pert::seedBase = r.next();
    pert::level = level;
    std::atomic<long> accepted{0};
    auto use = [&](Rng& q, HS& h, int n) {
        if (h.kind == 0) { for (int i = 0; i < n; ++i) { h.emits.fetch_add(1); D.emitEvent(h.id.load()); } }
        else if (h.kind == 1) { for (int i = 0; i < n; ++i) if (D.enqueueEvent(h.id.load(), 5)) h.emits.fetch_add(1); }
        else if (q.chance(50)) D.startTimer(h.id.load(), 1000 + h.id.load(), (unsigned)q.range(1, 3), q.chance(50));
        gProgress.fetch_add(1);
    };
    std::vector<std::thread> th;
    uint64_t s0 = r.next();
    for (int t = 0; t < T; ++t)
        th.emplace_back([&, t]() { Rng q(s0 + (uint64_t)t * 31); for (int i = 0; i < 60; ++i) { HS& h = *hs[(size_t)q.below(N)]; use(q, h, q.range(1, 3)); if (q.chance(20)) pert::nap(1 + q.below(100)); } });
    int removals = r.range(1, N - 1), done = 0;
    for (int i = 0; i < N && done < removals; ++i) {
        HS& h = *hs[(size_t)i];
        pauseSome(r);
        if (SINGLE) H.onLoop([&]() { Rng q(r.next()); for (auto& o : hs) use(q, *o, q.range(0, 4)); });
        int how = r.below(3);
        if (how == 0 && h.kind != 2) { victim = i; ++done; }
        else if (h.state.load() == 1) {
            ++done;
            if (how == 1) onDispatcher(disp, [&]() { if (h.state.load() == 1) { unreg(h); h.state = 2; } }, "unregister");
            else if (!SINGLE && (!ONLOOP || h.kind != 2)) {
                // from another thread: a call in progress may finish, but nothing is called after the dispatcher went on
                int was = 1;
                unreg(h);
                if (h.kind == 2) h.state.compare_exchange_strong(was, 2);
                else onDispatcher(disp, [&]() { h.state = 2; }, "removed");
            } else H.onLoop([&]() { unreg(h); h.state = 2; });
        }
    }
    for (auto& t : th) t.join();
    phase("handlers:drain");
    victim = -1;
    pert::level = 0;
    // what stays registered gets every call exactly once
    for (auto& h : hs) {
        if (h->state.load() != 1 || h->kind == 2) continue;
        bool ok = stuckWait([&]() { return h->calls.load() >= h->emits.load() || h->state.load() != 1; }, 15000);
        if (!ok) fatal("handler-lost", "a registered handler was called " + std::to_string(h->calls.load()) + " times for " + std::to_string(h->emits.load()) + " requests");
    }
    for (int k = 0; k < 3; ++k) onDispatcher(disp, []() {}, "barrier");
    for (auto& h : hs) if (h->kind != 2 && h->calls.load() > h->emits.load()) viol("handler-twice", "a handler was called " + std::to_string(h->calls.load()) + " times for " + std::to_string(h->emits.load()) + " requests");
    long calls = 0;
    for (auto& h : hs) { calls += h->calls.load(); if (h->state.load() == 1) H.onLoop([&]() { unreg(*h); h->state = 2; }); }
    onDispatcher(disp, []() {}, "barrier");
    pert::nap(3000);
    if (ghost.load()) viol("handler-after-removal:churn", "a handler which was removed before anything was requested was called");
    R.add("handler_calls", calls); R.add("handlers_removed", done);
    R.note(hashStr(ds.str()) + (uint64_t)calls);
    phase("handlers:destroy");
    H.destroy(disp);
    for (int i = 0; i < 3; ++i) H.onLoop([]() {});
    if (idx % 61 == 0) R.sample(ds.str() + " calls=" + std::to_string(calls));
}

// ---------------------------------------------------------------- disp
static void caseDisp(uint64_t seed, long idx) {
    Rng r(seed * 141650939 + (uint64_t)idx);
    Host& H = Host::get();
    int level = tsanBuild() ? 0 : r.below(4);
    std::string hist;
    int steps = r.range(1, 14);
    desc("disp " + std::string(DISP_NAME) + " seed=" + std::to_string(seed) + " case=" + std::to_string(idx));
    phase("disp:run");
    pert::level = level;
    pert::seedBase = r.next();
    std::shared_ptr<Disp> d;
    std::atomic<long> calls{0}, want{0}, acts{0}, wantActs{0};
    bool started = false, everStopped = false;
    HandlerID_t h = INVALID_HSM_DISPATCHER_HANDLER_ID, th = INVALID_HSM_DISPATCHER_HANDLER_ID;
    std::unique_ptr<LM> m;
    LoopMon mon;
    std::atomic<long> timerCalls{0};
    H.onLoop([&]() { d = H.create(); });
    for (int s = 0; s < steps; ++s) {
        int w = r.below(12);
        phase("disp:step" + std::to_string(w));
        H.onLoop([&]() {
            switch (w) {
                case 0: case 1:
                    hist += "start ";
                    if (!everStopped) {
                        if (!d->start()) viol("disp:start", "start() failed", hist);
#if defined(DISP_ARDUINO)
                        H.polled = d;
#endif
                        started = true;
                    }
                    break;
                case 2:
                    if (!r.chance(40)) break;
                    hist += "stop "; d->stop(); everStopped = true; h = INVALID_HSM_DISPATCHER_HANDLER_ID;
                    break;
                case 3: hist += "register "; if (!everStopped) { h = d->registerEventHandler([&]() { calls.fetch_add(1); gProgress.fetch_add(1); return true; }); th = d->registerTimerHandler([&](const TimerID_t) { timerCalls.fetch_add(1); return true; }); } break;
                case 4: hist += "emit "; if (h != INVALID_HSM_DISPATCHER_HANDLER_ID) { if (started && !everStopped) want.fetch_add(1); d->emitEvent(h); } break;
                case 5: hist += "emit-unknown "; d->emitEvent(424242); break;
                case 6: hist += "unregister "; if (h != INVALID_HSM_DISPATCHER_HANDLER_ID) { want = -1000000; d->unregisterEventHandler(h); h = INVALID_HSM_DISPATCHER_HANDLER_ID; } d->unregisterEventHandler(99999); d->unregisterTimerHandler(99999); d->unregisterEnqueuedEventHandler(99999); break;
                case 7: hist += "action "; if (started && !everStopped) { wantActs.fetch_add(1); d->enqueueAction([&]() { acts.fetch_add(1); gProgress.fetch_add(1); }); } break;
                case 8: hist += "timer "; if (th != INVALID_HSM_DISPATCHER_HANDLER_ID && started) ((IHsmEventDispatcher&)*d).startTimer(th, 5, (unsigned)r.range(1, 3), r.chance(50)); break;
                case 9: hist += "enqueue-unknown "; if (started) d->enqueueEvent(777, 1); break;
                case 10:
                    hist += "machine ";
                    if (m || everStopped) break;
                    m.reset(new LM(mon, 0)); m->build(); tlInit = true;
                    if (!m->hsm->initialize(d)) viol("disp:init", "initialize() failed", hist);
                    if (m->hsm->initialize(d)) viol("disp:init-twice", "initialize() of an initialized machine succeeded", hist);
                    tlInit = false;
                    started = true;
#if defined(DISP_ARDUINO)
                    H.polled = d;
#endif
                    break;
                default: hist += "post "; if (m) { m->hsm->transition(E_GO); m->hsm->startTimer(m->timerA, 1, false); } break;
            }
        });
#if defined(DISP_STD)
        if (w == 2 && everStopped && r.chance(50)) { hist += "join "; d->join(); }
#endif
        if (r.chance(30)) pert::nap(1 + r.below(1500));
    }
    if (started && !everStopped) {
        phase("disp:drain");
        if (want.load() >= 0 && !stuckWait([&]() { return calls.load() >= want.load(); })) fatal("disp:lost", "event of a registered handler was lost", hist);
        if (!stuckWait([&]() { return acts.load() >= wantActs.load(); })) fatal("disp:action-lost", "action was lost", hist);
        if (acts.load() > wantActs.load()) viol("disp:action-twice", "action executed more than once", hist);
    }
    phase("disp:end");
    int how = r.below(4);
    auto dropM = [&]() { if (m) H.onLoop([&]() { m->hsm.reset(); }); };
    auto dropD = [&]() {
        H.onLoop([&]() {
#if defined(DISP_ARDUINO)
            H.polled.reset();
#endif
            d.reset();
        });
    };
    hist += "end" + std::to_string(how);
    if (how == 0) { dropM(); dropD(); }
    else if (how == 1) { dropD(); dropM(); }
    else { H.onLoop([&]() { d->stop(); d->stop(); });
#if defined(DISP_STD)
        if (how == 2) d->join();
#endif
        if (r.chance(50)) { dropM(); dropD(); } else { dropD(); dropM(); } }
    long c = calls.load() + timerCalls.load() + acts.load();
    pert::level = 0;
    for (int i = 0; i < 3; ++i) H.onLoop([]() {});
    if (how != 3 || true) { pert::nap(500); if (calls.load() + timerCalls.load() + acts.load() != c) viol("disp:call-after-destruction", "a handler was called after the dispatcher was destroyed", hist); }
    R.add("disp_steps", steps);
    R.note(hashStr(hist));
    if (idx % 97 == 0) R.sample(hist);
}

int main(int argc, char** argv) {
    Options o(argc, argv);
    gOut = o.str("out", "/dev/null");
    std::string modes = o.str("mode", "machines");
    uint64_t seed = (uint64_t)o.num("seed", 1);
    long cases = o.num("cases", 100), only = o.num("only", -1);
    std::vector<std::string> ml;
    std::stringstream ss(modes);
    for (std::string t; std::getline(ss, t, ',');) ml.push_back(t);
#if defined(DISP_ARDUINO)
    ardu::pollMs = 1;
#endif
    Host::get().run([&]() {
        Watchdog wd(45000);
        for (long i = 0; i < cases; ++i) {
            if (only >= 0 && i != only) continue;
            const std::string& m = ml[i % ml.size()];
            R.eval();
            if (m == "machines") caseMachines(seed, i);
            else if (m == "handlers") caseHandlers(seed, i);
            else if (m == "disp") caseDisp(seed, i);
            if (R.nviol() >= 6) break;
        }
        R.add("perturbation_points", pert::points.load());
        R.add("injected_delays", pert::delays.load());
    });
    R.write(gOut);
    finishProcess();
}
