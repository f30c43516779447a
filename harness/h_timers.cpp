// C11: timers. Operations and expirations are recorded with timestamps, offline checkers decide.
//  raw:  timers of the dispatcher interface with an own handler
//  hsm:  timers of state machines: expirations are events
//  virt: polled dispatcher under virtual time, exact reference model (including wrap-around of the clock)
#define VH_PERTURB_IMPL
#include "dispmon.hpp"
#include <climits>
#include <algorithm>

namespace vh { Result R; std::string gOut; }
using namespace vh;

#if defined(DISP_ARDUINO)
constexpr bool SINGLE = true;
#else
constexpr bool SINGLE = false;
#endif

static long long tolUs(long long intervalMs) {
#if defined(DISP_QT)
    return intervalMs * 1000 / 20 + 2500;      // coarse timers of the toolkit may expire up to 5% early
#else
    (void)intervalMs;
    return 0;
#endif
}
#if defined(DISP_GLIB) || defined(DISP_GLIBMM)
constexpr long long SLACK = 0;
#else
constexpr long long SLACK = 0;
#endif

// longest pause of an otherwise idle thread: how much lateness the machine itself causes
struct Canary {
    std::thread t; std::atomic<bool> stop{false}; std::atomic<long long> worst{0};
    Canary() { t = std::thread([this]() { pert::quiet = true; while (!stop) { long long a = nowUs(); usleep(2000); long long d = nowUs() - a - 2000; if (d > worst) worst = d; } }); }
    ~Canary() { stop = true; t.join(); }
};

struct Op { char k; long long c, r; long long interval; bool single; };   // k: s start, r restart, x stop, 0 start with interval 0
struct TimerLog {
    std::mutex m;
    std::vector<Op> ops;
    std::vector<long long> fires;
    std::atomic<long> nFires{0};
    int id = 0;
    bool contended = false;
    bool expiredSingle = false;      // uncontended: last known state
    std::string dump(size_t maxOps = 60) {
        std::ostringstream o;
        std::vector<std::pair<long long, std::string>> ev;
        for (auto& p : ops) ev.push_back({p.c, std::string(1, p.k) + "[" + std::to_string(p.c) + ".." + std::to_string(p.r) + " iv=" + std::to_string(p.interval) + (p.single ? " single" : " periodic") + "]"});
        for (auto f : fires) ev.push_back({f, "FIRE@" + std::to_string(f)});
        std::sort(ev.begin(), ev.end());
        size_t n = ev.size();
        for (size_t i = n > maxOps ? n - maxOps : 0; i < n; ++i) o << ev[i].second << "\n";
        return o.str();
    }
};

// offline oracle. exactStop: no expiration may be observed after stop returned
static bool checkTimer(TimerLog& t, bool exactStop, long long lateBoundUs, long long endUs, std::string& key, std::string& msg) {
    auto& ops = t.ops; auto& f = t.fires;
    auto isStart = [](const Op& o) { return o.k == 's' || o.k == 'r'; };
    std::sort(f.begin(), f.end());
    // intervals of restarts: those of the start in effect; all operations of a contended timer use the same settings
    std::vector<bool> valid(ops.size(), true);
    for (size_t i = 0; i < ops.size(); ++i) if (ops[i].k == 'r') {
        bool ok = false;
        for (size_t s = 0; s < ops.size(); ++s) {
            if (ops[s].k != 's' || ops[s].c > ops[i].r) continue;
            bool killed = false;
            for (auto& k : ops) if (k.k == 'x' && k.c >= ops[s].r && k.r <= ops[i].c) killed = true;
            if (!killed) ok = true;
        }
        valid[i] = ok;
    }
    // 1. every expiration is justified by a start which was not cancelled before
    std::vector<int> used(ops.size(), 0);
    for (size_t fi = 0; fi < f.size(); ++fi) {
        bool just = false, early = false, stopped = false;
        int pickSingle = -1;
        bool pickPeriodic = false;
        for (size_t i = 0; i < ops.size(); ++i) {
            const Op& o = ops[i];
            if (!isStart(o) || !valid[i] || o.c > f[fi]) continue;
            bool killed = false, byStop = false;
            for (size_t k = 0; k < ops.size(); ++k) if (k != i && (ops[k].k == 'x' || (isStart(ops[k]) && valid[k])) && ops[k].c >= o.r && ops[k].r <= f[fi]) { killed = true; byStop |= ops[k].k == 'x'; }
            if (killed && exactStop) { if (byStop) stopped = true; continue; }
            if (f[fi] < o.c + o.interval * 1000 - tolUs(o.interval)) { early = true; continue; }
            if (o.single) { if (!used[i] && pickSingle < 0) pickSingle = (int)i; }
            else pickPeriodic = true;
        }
        if (pickPeriodic) just = true;             // a periodic timer justifies any number of expirations
        else if (pickSingle >= 0) { used[pickSingle]++; just = true; }
        if (!just) {
            if (early) { key = "early"; msg = "timer expired before its interval elapsed"; }
            else if (stopped) { key = "after-stop"; msg = "timer expired after it was stopped"; }
            else { key = "spurious"; msg = "expiration without a running timer (or second expiration of a single-shot timer)"; }
            msg += " at " + std::to_string(f[fi]);
            return false;
        }
    }
    if (t.contended) return true;
    // 2. periodic timers: k-th expiration not before k intervals; gaps bounded. single-shot: not more than one, not lost
    for (size_t i = 0; i < ops.size(); ++i) {
        const Op& o = ops[i];
        if (!isStart(o) || !valid[i]) continue;
        long long to = endUs;
        for (size_t k = i + 1; k < ops.size(); ++k) if (ops[k].k == 'x' || (isStart(ops[k]) && valid[k])) { to = ops[k].c; break; }
        long long prev = o.r, k = 0;
        bool duringStart = false;                  // the start call may take longer than the interval
        for (auto x : f) {
            if (x > o.c + o.interval * 1000 - tolUs(o.interval) && x <= o.r) duringStart = true;
            if (x <= o.r || x >= to) continue;
            ++k;
            if (exactStop && x < o.c + k * o.interval * 1000 - tolUs(o.interval) - (tolUs(o.interval) ? 1000 * k : 0)) { key = "fast"; msg = "expiration " + std::to_string(k) + " of a periodic timer came too early at " + std::to_string(x); return false; }
            if (o.single && k > 1 && exactStop) { key = "single-twice"; msg = "single-shot timer expired twice"; return false; }
            if (!o.single || k == 1) if (x - prev > o.interval * 1000 + lateBoundUs) { key = "late"; msg = "expiration is " + std::to_string((x - prev) / 1000 - o.interval) + " ms late"; return false; }
            prev = x;
        }
        if (((k == 0 && !duringStart) || !o.single) && to - prev > o.interval * 1000 + lateBoundUs) { key = "lost"; msg = "timer did not expire within " + std::to_string((to - prev) / 1000) + " ms, interval " + std::to_string(o.interval); return false; }
    }
    return true;
}

static IHsmEventDispatcher& DI(const std::shared_ptr<Disp>& d) { return *d; }
static void apiOn(const std::shared_ptr<Disp>& d, bool loop, const std::function<void()>& f) {
    if (SINGLE) Host::get().onLoop(f);
    else if (loop) onDispatcher(d, f, "op");
    else f();
}

// ---------------------------------------------------------------- raw
static void caseRaw(uint64_t seed, long idx) {
    Rng r(seed * 15485863 + (uint64_t)idx);
    Host& H = Host::get();
    int level = 
#ifdef VH_TSAN
        0;
#else
        r.below(4);
#endif
    int T = r.range(1, 5), durMs = r.range(80, 350);
    bool busy = r.chance(30), contended = r.chance(25), unreg = r.chance(30);
    std::ostringstream ds;
    ds << "raw disp=" << DISP_NAME << " seed=" << seed << " case=" << idx << " owners=" << T << " ms=" << durMs << " perturb=" << level << " busy=" << busy << " contended=" << contended;
    desc(ds.str());
    phase("raw:setup");
    pert::level = 0;
    auto disp = H.make();
    Canary can;
    std::vector<std::unique_ptr<TimerLog>> logs;
    std::map<int, TimerLog*> byId;
    int nIds = r.range(T, T * 3);
    for (int i = 0; i < nIds; ++i) { logs.emplace_back(new TimerLog); logs.back()->id = i * 7 + 1; byId[logs.back()->id] = logs.back().get(); }
    std::atomic<int> inHandler{0};
    std::atomic<long long> unregAt{LLONG_MAX};
    auto onTimer = [&](const TimerID_t id) -> bool {
        long long now = nowUs();
        gProgress.fetch_add(1);
        if (inHandler.fetch_add(1) != 0) viol("overlap", "two timer handlers run at the same time");
        if (now > unregAt.load()) viol("after-unregister", "timer handler called after it was unregistered");
        auto it = byId.find(id);
        if (it == byId.end()) viol("unknown-id", "timer handler called with an unknown id");
        else { std::lock_guard<std::mutex> l(it->second->m); it->second->fires.push_back(now); it->second->nFires.fetch_add(1); }
        pert::point();
        inHandler.fetch_sub(1);
        return true;
    };
    HandlerID_t h = INVALID_HSM_DISPATCHER_HANDLER_ID;
    H.onLoop([&]() { h = disp->registerTimerHandler(onTimer); });
    phase("raw:drive");
    pert::seedBase = r.next();
    pert::level = level;
    std::atomic<bool> stopBusy{false};
    std::thread bt;
    if (busy) bt = std::thread([&, s = r.next()]() { Rng q(s); while (!stopBusy) { disp->enqueueAction([]() { gProgress.fetch_add(1); }); pert::nap(50 + q.below(400)); } });
    std::vector<std::thread> th;
    long long tEnd = nowUs() + durMs * 1000;
    std::atomic<long> opsDone{0}, running{0};
    for (int o = 0; o < T; ++o) {
        th.emplace_back([&, o, s = r.next()]() {
            Rng q(s);
            std::vector<TimerLog*> mine;
            for (int i = 0; i < nIds; ++i) if (i % T == o) mine.push_back(logs[i].get());
            struct St { bool started = false, single = false; long long iv = 0, c = 0, rr = 0; long fAt = 0; };
            std::map<int, St> st;
            bool pr = pert::quiet;
            while (nowUs() < tEnd) {
                TimerLog& t = *mine[q.below((int)mine.size())];
                St& x = st[t.id];
                bool loop = q.chance(30);
                Op op{};
                int w = q.below(100);
                if (w < 45) { op.k = 's'; op.interval = q.chance(75) ? q.range(1, 12) : q.chance(70) ? q.range(12, 60) : (q.chance(50) ? 100000 : 3000000000ll); op.single = q.chance(60); }
                else if (w < 65) { op.k = 'r'; op.interval = x.iv; op.single = x.single; }
                else if (w < 85) op.k = 'x';
                else if (w < 90) { op.k = '0'; op.single = q.chance(50); }
                else op.k = '?';
                bool res = false;
                apiOn(disp, loop, [&]() {
                    op.c = nowUs();
                    switch (op.k) {
                        case 's': DI(disp).startTimer(h, t.id, (unsigned)op.interval, op.single); break;
                        case 'r': DI(disp).restartTimer(t.id); break;
                        case 'x': DI(disp).stopTimer(t.id); break;
                        case '0': DI(disp).startTimer(h, t.id, 0, op.single); break;
                        default: res = DI(disp).isTimerRunning(t.id);
                    }
                    op.r = nowUs();
                });
                opsDone.fetch_add(1);
                gProgress.fetch_add(1);
                if (op.k == '?') {
                    // what must be known at the time of the query
                    long long fires = t.nFires.load();
                    if (!x.started && res) viol("running:stopped", "isTimerRunning() is true for a timer which is not running");
                    if (x.started && !x.single && !res) viol("running:periodic", "isTimerRunning() is false for a running periodic timer");
                    if (x.started && x.single && !res && op.r < x.c + x.iv * 1000 - tolUs(x.iv)) viol("running:single", "isTimerRunning() is false before the single-shot timer could expire", t.dump());
                    (void)fires;
                    running.fetch_add(1);
                } else {
                    std::lock_guard<std::mutex> l(t.m);
                    if (op.k == 'r' && !x.started && x.rr == 0) op.k = 'n';   // never started or stopped: no effect expected
                    t.ops.push_back(op);
                }
                if (op.k == 's') { x.started = true; x.single = op.single; x.iv = op.interval; x.c = op.c; x.rr = 1; }
                else if (op.k == 'r') { x.c = op.c; }
                else if (op.k == 'x') { x = St(); }
                // pause: random, aimed at the expiration or until the expiration was seen
                long long now = nowUs();
                int how = q.below(100);
                pert::quiet = true;
                if (x.started && x.iv < 100 && how < 35) {
                    long long target = x.c + x.iv * 1000 + q.range(-400, 500);
                    while ((now = nowUs()) < target && now < tEnd + 100000) { if (target - now > 300) pert::nap((unsigned)std::min<long long>(target - now - 200, 900000)); }
                } else if (x.started && x.iv < 100 && (op.k == 's' || op.k == 'r') && how < 55) {
                    // must expire: an expiration observed after the call which is not older than the interval
                    long long until = nowUs() + 9000000;
                    auto seen = [&]() { std::lock_guard<std::mutex> l(t.m); for (auto f : t.fires) if (f > op.r) return true; return false; };
                    bool ok = false;
                    while (!(ok = seen()) && nowUs() < until) pert::nap(200);
                    // expirations inside the call itself belong to the new epoch if it was that slow
                    if (!ok) { std::lock_guard<std::mutex> l(t.m); for (auto f : t.fires) if (f >= op.c + op.interval * 1000 - tolUs(op.interval)) ok = true; }
                    if (!ok) viol(std::string("lost:") + op.k, "started timer did not expire within 9 s", t.dump());
                    R.add("awaited_expirations");
                    if (ok && x.single && q.chance(50)) {
                        bool run = false;
                        apiOn(disp, false, [&]() { run = DI(disp).isTimerRunning(t.id); });
                        if (run) viol("running:expired", "isTimerRunning() is true for an expired single-shot timer", t.dump());
                    }
                } else if (how < 80) pert::nap(1 + q.below(3000));
                pert::quiet = pr;
            }
        });
    }
    // a timer which several threads start and restart with the same settings
    TimerLog shared; shared.id = 100000; shared.contended = true;
    if (contended) {
        byId[shared.id] = &shared;   // registered before any of its operations
        long long iv = r.range(1, 8); bool single = r.chance(50);
        for (int o = 0; o < 2; ++o)
            th.emplace_back([&, s = r.next(), iv, single]() {
                Rng q(s);
                while (nowUs() < tEnd) {
                    Op op{}; op.interval = iv; op.single = single;
                    int w = q.below(10);
                    op.k = w < 5 ? 's' : w < 7 ? 'r' : 'x';
                    op.c = nowUs();
                    if (op.k == 's') DI(disp).startTimer(h, shared.id, (unsigned)iv, single); else if (op.k == 'r') DI(disp).restartTimer(shared.id); else DI(disp).stopTimer(shared.id);
                    op.r = nowUs();
                    { std::lock_guard<std::mutex> l(shared.m); shared.ops.push_back(op); }
                    opsDone.fetch_add(1);
                    gProgress.fetch_add(1);
                    pert::nap(q.chance(60) ? 1 + q.below(2 * (int)iv * 1000) : (unsigned)iv * 1000 - 200 + q.below(400));
                }
            });
    }
    for (auto& t : th) t.join();
    phase("raw:settle");
    // outstanding expirations: let every short running timer expire at least once more
    long long end0 = nowUs();
    pert::quiet = true;
    for (auto& lp : logs) {
        TimerLog& t = *lp;
        long long due = 0; bool need = false; long long since = 0;
        { std::lock_guard<std::mutex> l(t.m); for (auto& o : t.ops) { if (o.k == 's' || o.k == 'r') { need = o.interval < 100; since = o.c; due = o.c + o.interval * 1000; (void)since; } else if (o.k == 'x') need = false; } }
        if (!need) continue;
        Op last{}; { std::lock_guard<std::mutex> l(t.m); for (auto& o : t.ops) if (o.k == 's' || o.k == 'r') last = o; }
        long long until = nowUs() + 9000000;
        bool ok = false;
        while (nowUs() < until) { { std::lock_guard<std::mutex> l(t.m); for (auto f : t.fires) if (f > last.r || f >= due) ok = true; } if (ok) break; pert::nap(300); gProgress.fetch_add(1); }
        if (!ok) viol("lost:settle", "started timer did not expire within 9 s", t.dump());
    }
    (void)end0;
    long long tStop = nowUs();
    pert::quiet = false;
    pert::level = 0;
    stopBusy = true;
    if (bt.joinable()) bt.join();
    if (unreg) {
        H.onLoop([&]() { disp->unregisterTimerHandler(h); unregAt = nowUs(); });
        for (auto& lp : logs) { bool run = false; apiOn(disp, false, [&]() { run = DI(disp).isTimerRunning(lp->id); }); if (run) viol("running:unregistered", "timer is still running after its handler was unregistered"); }
        pert::nap(15000);
    } else {
        for (auto& lp : logs) { Op op{}; op.k = 'x'; apiOn(disp, false, [&]() { op.c = nowUs(); DI(disp).stopTimer(lp->id); op.r = nowUs(); }); std::lock_guard<std::mutex> l(lp->m); lp->ops.push_back(op); }
        if (contended) { Op op{}; op.k = 'x'; op.c = nowUs(); DI(disp).stopTimer(shared.id); op.r = nowUs(); shared.ops.push_back(op); }
        pert::nap(15000);
    }
    long long late = 1500000 + can.worst.load() * 8;
    long fires = 0;
    uint64_t hh = 77;
    H.onLoop([]() {});
    if (!unreg) H.onLoop([&]() { disp->unregisterTimerHandler(h); });
    unregAt = nowUs();
    for (size_t i = 0; i <= logs.size(); ++i) {
        if (i == logs.size() && !contended) break;
        TimerLog& t = i < logs.size() ? *logs[i] : shared;
        std::string key, msg;
        std::lock_guard<std::mutex> l(t.m);
        fires += (long)t.fires.size();
        for (auto& o : t.ops) hh = hh * 31 + (uint64_t)o.k + (uint64_t)o.interval * 7;
        hh = hh * 31 + t.fires.size();
        if (!checkTimer(t, true, late, tStop, key, msg)) viol(key + (t.contended ? ":contended" : ""), msg, t.dump());
    }
    R.add("ops", opsDone.load()); R.add("expirations", fires); R.add("running_queries", running.load());
    R.maxOf("max.canary_us", can.worst.load());
    R.note(hh);
    if (idx % 17 == 0) { std::lock_guard<std::mutex> l(logs[0]->m); R.sample(ds.str() + "\n" + logs[0]->dump(20)); }
    H.destroy(disp);
}

// ---------------------------------------------------------------- hsm
enum { T_STATE = 1, T_OTHER = 2 };
struct TMachine {
    LoopMon& mon;
    std::unique_ptr<HierarchicalStateMachine> hsm;
    std::vector<std::unique_ptr<TimerLog>> t;    // timers; event id = 1000 + timer id
    std::atomic<bool> released{false};
    std::function<void(int)> inCallback;
    explicit TMachine(LoopMon& m) : mon(m) {}
    void build(int base, int n, long actIv, bool actSingle) {
        hsm.reset(new HierarchicalStateMachine(T_STATE));
        hsm->registerState(T_STATE);
        hsm->registerState(T_OTHER);
        hsm->registerTransition(T_STATE, T_OTHER, 500);
        hsm->registerTransition(T_OTHER, T_STATE, 500);
        for (int i = 0; i < n; ++i) {
            t.emplace_back(new TimerLog);
            t.back()->id = base + i;
            hsm->registerTimer(base + i, 1000 + base + i);
            for (int s : {T_STATE, T_OTHER})
                hsm->registerSelfTransition(s, 1000 + base + i, TransitionType::INTERNAL_TRANSITION, [this, i](const VariantVector_t& a) { fire(i, a); });
        }
        // state actions drive the last timer
        if (actIv > 0) {
            hsm->registerStateAction(T_OTHER, StateActionTrigger::ON_STATE_ENTRY, StateAction::START_TIMER, (int)(base + n - 1), (int)actIv, actSingle);
            hsm->registerStateAction(T_OTHER, StateActionTrigger::ON_STATE_EXIT, StateAction::STOP_TIMER, (int)(base + n - 1));
        }
        hsm->registerFailedTransitionCallback([this](const std::list<StateID_t>&, const EventID_t e, const VariantVector_t&) { viol("hsm:failed", "event " + std::to_string(e) + " was rejected"); });
    }
    void fire(int i, const VariantVector_t& a) {
        CbScope s(mon, "timer-event");
        long long now = nowUs();
        if (released.load()) viol("hsm:after-release", "timer event after release returned");
        if (!a.empty()) viol("hsm:args", "event of a timer has arguments");
        { std::lock_guard<std::mutex> l(t[i]->m); t[i]->fires.push_back(now); t[i]->nFires.fetch_add(1); }
        if (inCallback) inCallback(i);
    }
};
static void caseHsm(uint64_t seed, long idx) {
    Rng r(seed * 32452843 + (uint64_t)idx);
    Host& H = Host::get();
    int level =
#ifdef VH_TSAN
        0;
#else
        r.below(3);
#endif
    int K = r.range(1, 3), durMs = r.range(60, 250);
    std::ostringstream ds;
    ds << "hsm disp=" << DISP_NAME << " seed=" << seed << " case=" << idx << " machines=" << K << " ms=" << durMs << " perturb=" << level;
    desc(ds.str());
    phase("hsm:setup");
    pert::level = 0;
    auto disp = H.make();
    Canary can;
    LoopMon mon;
    std::vector<std::unique_ptr<TMachine>> ms;
    for (int k = 0; k < K; ++k) {
        ms.emplace_back(new TMachine(mon));
        ms.back()->build(k * 100 + 1, r.range(2, 4), r.chance(60) ? r.range(1, 10) : 0, r.chance(50));
        H.onLoop([&]() { tlInit = true; if (!ms.back()->hsm->initialize(disp)) fatal("init", "initialize failed"); tlInit = false; });
    }
    onDispatcher(disp, [&]() { mon.loop = LoopMon::me(); }, "loop-id");
    // a machine whose timers run undisturbed while machines around it are created, driven and released
    bool noise = r.chance(60);
    TMachine by(mon);
    std::vector<long> byIv;
    long long byStart = nowUs();
    by.build(901, 4, 0, false);
    H.onLoop([&]() { tlInit = true; if (!by.hsm->initialize(disp)) fatal("init", "initialize failed"); tlInit = false; });
    for (auto& t : by.t) { byIv.push_back(r.range(2, 25)); apiOn(disp, r.chance(50), [&]() { by.hsm->startTimer(t->id, (unsigned)byIv.back(), false); }); }
    // a machine which always has another event to process must not starve timers and other machines
    bool busy = r.chance(35);
    std::atomic<bool> busyStop{false};
    std::atomic<long> busyEvents{0};
    HierarchicalStateMachine busyHsm(1);
    busyHsm.registerState(1);
    busyHsm.registerSelfTransition(1, 600, TransitionType::INTERNAL_TRANSITION, [&](const VariantVector_t&) { busyEvents.fetch_add(1); if (!busyStop.load()) busyHsm.transition(600); });
    H.onLoop([&]() { tlInit = true; if (!busyHsm.initialize(disp)) fatal("init", "initialize failed"); tlInit = false; });
    if (busy) apiOn(disp, false, [&]() { busyHsm.transition(600); });
    pert::seedBase = r.next();
    pert::level = level;
    phase("hsm:drive");
    long long tEnd = nowUs() + durMs * 1000;
    std::vector<std::thread> th;
    std::atomic<long> noiseMachines{0};
    if (noise) th.emplace_back([&, s = r.next()]() {
        Rng q(s);
        int base = 2001;
        while (nowUs() < tEnd) {
            TMachine m(mon);
            m.build(base, q.range(1, 3), 0, false);
            if (q.chance(70)) base += 10;        // otherwise the next machine uses the same ids again
            H.onLoop([&]() { tlInit = true; if (!m.hsm->initialize(disp)) fatal("init", "initialize failed"); tlInit = false; });
            for (auto& t : m.t) if (q.chance(80)) apiOn(disp, q.chance(50), [&]() { m.hsm->startTimer(t->id, (unsigned)q.range(1, 6), q.chance(50)); });
            pert::nap(1 + q.below(12000));
            if (q.chance(30)) for (auto& t : m.t) if (q.chance(50)) apiOn(disp, q.chance(50), [&]() { m.hsm->stopTimer(t->id); });
            if (q.chance(30)) { TMachine never(mon); never.build(base, 1, 0, false); }
            onDispatcher(disp, [&]() { m.hsm->release(); m.released = true; }, "release-noise");
            for (auto& t : by.t) { bool run = false; apiOn(disp, q.chance(50), [&]() { run = by.hsm->isTimerRunning(t->id); }); if (!run) viol("hsm:bystander-stopped", "periodic timer of a machine is not running any more after another machine was released"); }
            for (auto& t : m.t) { bool run = false; apiOn(disp, false, [&]() { run = DI(disp).isTimerRunning(t->id); }); if (run) viol("hsm:running-after-release", "timer of a released machine is still running"); }
            onDispatcher(disp, [&]() { m.hsm.reset(); }, "delete-noise");
            noiseMachines.fetch_add(1);
            gProgress.fetch_add(1);
        }
    });
    std::atomic<long> ops{0}, awaited{0};
    for (int k = 0; k < K; ++k) th.emplace_back([&, k, s = r.next()]() {
        Rng q(s);
        TMachine& M = *ms[k];
        int n = (int)M.t.size() - 1;      // the last timer belongs to the state actions
        std::vector<Op> cur(n);
        while (nowUs() < tEnd) {
            int i = q.below(n);
            TimerLog& t = *M.t[i];
            bool loop = q.chance(40);
            Op op{};
            int w = q.below(100);
            if (w < 50) { op.k = 's'; op.interval = q.chance(90) ? q.range(1, 15) : 100000; op.single = q.chance(65); }
            else if (w < 65) { op.k = 'r'; op.interval = cur[i].interval; op.single = cur[i].single; if (cur[i].k == 0 || cur[i].k == 'x') op.k = 'n'; }
            else if (w < 80) op.k = 'x';
            else { if (SINGLE || loop) apiOn(disp, loop, [&]() { M.hsm->transition(500); }); else M.hsm->transition(500); pert::nap(1 + q.below(2500)); gProgress.fetch_add(1); continue; }
            long before = t.nFires.load();
            { std::lock_guard<std::mutex> l(t.m); before = (long)t.fires.size(); }
            apiOn(disp, loop, [&]() {
                op.c = nowUs();
                if (op.k == 's') M.hsm->startTimer(t.id, (unsigned)op.interval, op.single);
                else if (op.k == 'x') M.hsm->stopTimer(t.id);
                else M.hsm->restartTimer(t.id);
                op.r = nowUs();
            });
            { std::lock_guard<std::mutex> l(t.m); t.ops.push_back(op); }
            ops.fetch_add(1);
            gProgress.fetch_add(1);
            if (op.k != 'n') cur[i] = op;
            pert::quiet = true;
            if ((op.k == 's' || op.k == 'r') && op.interval < 1000 && q.chance(35)) {
                long long until = nowUs() + 9000000;
                while (t.nFires.load() <= before && nowUs() < until) pert::nap(200);
                if (t.nFires.load() <= before) viol("hsm:lost", "no event within 9 s after a timer was started", t.dump());
                awaited.fetch_add(1);
            } else if (op.k == 'x' && q.chance(40)) {
                // what was posted before the stop is processed by now
                for (int b = 0; b < 4; ++b) onDispatcher(disp, []() {}, "barrier");
                bool drained = false;
                for (int b = 0; b < 200 && !drained; ++b) { long a = t.nFires.load(); for (int z = 0; z < 3; ++z) onDispatcher(disp, []() {}, "barrier"); drained = a == t.nFires.load(); }
                long a = t.nFires.load();
                pert::nap(1000 * (1 + q.below(16)));
                if (t.nFires.load() != a) viol("hsm:after-stop", "events of a timer which was stopped", t.dump());
            } else if (q.chance(70)) pert::nap(1 + q.below(4000));
            pert::quiet = false;
        }
    });
    for (auto& t : th) t.join();
    phase("hsm:bystander");
    pert::level = 0;
    auto byCheck = [&](const char* when) {
        for (size_t i = 0; i < by.t.size(); ++i) {
            TimerLog& t = *by.t[i];
            long b = t.nFires.load();
            long long until = nowUs() + 9000000;
            while (t.nFires.load() <= b && nowUs() < until) pert::nap(200);
            if (t.nFires.load() <= b) viol("hsm:bystander-lost", std::string("a periodic timer of a machine does not expire any more ") + when, t.dump());
            long most = (long)((nowUs() - byStart + tolUs(byIv[i]) * t.nFires.load()) / (byIv[i] * 1000)) + 2;
            if (t.nFires.load() > most) viol("hsm:bystander-extra", "more events than a periodic timer can cause: " + std::to_string(t.nFires.load()) + " > " + std::to_string(most), t.dump());
        }
    };
    byCheck("while others were driven and released");
    if (busy) {
        long b = busyEvents.load();
        if (!SINGLE) {
            if (!ms[0]->hsm->transitionEx(500, false, true, 20000)) viol("hsm:starved", "a machine gets no answer to a synchronous transition while another machine has events all the time");
        }
        long long until = nowUs() + 9000000;
        while (busyEvents.load() <= b && nowUs() < until) pert::nap(200);
        if (busyEvents.load() <= b) viol("hsm:busy-stuck", "a machine which posts a new event from every callback stopped");
        R.add("busy_cases"); R.add("busy_events", busyEvents.load());
    }
    busyStop = true;
    onDispatcher(disp, [&]() { busyHsm.release(); }, "release-busy");
    phase("hsm:release");
    long long tStop = nowUs();
    long fires = 0;
    bool releaseRunning = r.chance(70);
    // timers started and then released with the machine produce no more events
    for (auto& m : ms) if (releaseRunning) for (auto& t : m->t) apiOn(disp, false, [&]() { m->hsm->startTimer(t->id, (unsigned)r.range(1, 6), r.chance(50)); });
    for (auto& m : ms) { onDispatcher(disp, [&]() { m->hsm->release(); }, "release"); m->released = true; }
    if (releaseRunning) for (auto& m : ms) for (auto& t : m->t) { bool run = false; apiOn(disp, false, [&]() { run = DI(disp).isTimerRunning(t->id); }); if (run) viol("hsm:running-after-release", "timer of a released machine is still running"); }
    byCheck("after all others were released");
    onDispatcher(disp, [&]() { by.hsm->release(); }, "release");
    by.released = true;
    R.add("bystander_events", [&]() { long x = 0; for (auto& t : by.t) x += t->nFires.load(); return x; }());
    R.add("noise_machines", noiseMachines.load());
    pert::nap(12000);
    for (int b = 0; b < 3; ++b) onDispatcher(disp, []() {}, "barrier");
    long long late = 1500000 + can.worst.load() * 8;
    uint64_t hh = 78;
    for (auto& m : ms) for (size_t i = 0; i + 1 < m->t.size(); ++i) {
        TimerLog& t = *m->t[i];
        std::lock_guard<std::mutex> l(t.m);
        while (!t.fires.empty() && t.fires.back() > tStop) t.fires.pop_back();
        fires += (long)t.fires.size();
        for (auto& o : t.ops) hh = hh * 31 + (uint64_t)o.k + (uint64_t)o.interval * 7;
        hh = hh * 31 + t.fires.size();
        std::string key, msg;
        if (!checkTimer(t, false, late, tStop, key, msg)) viol("hsm:" + key, msg, t.dump());
    }
    for (auto& m : ms) fires += (long)m->t.back()->fires.size();
    R.add("ops", ops.load()); R.add("hsm_events", fires); R.add("awaited_expirations", awaited.load());
    R.note(hh);
    if (idx % 17 == 0) R.sample(ds.str() + "\n" + ms[0]->t[0]->dump(20));
    ms.clear();
    by.hsm.reset();
    H.destroy(disp);
}

// ---------------------------------------------------------------- virt: exact model
#if defined(DISP_ARDUINO)
static void caseVirt(uint64_t seed, long idx) {
    Rng r(seed * 49979687 + (uint64_t)idx);
    Host& H = Host::get();
    std::ostringstream ds;
    bool wrap = r.chance(30);
    ds << "virt disp=" << DISP_NAME << " seed=" << seed << " case=" << idx << " wrap=" << wrap;
    desc(ds.str());
    phase("virt");
    H.onLoop([&]() {
        auto disp = H.create();
        disp->start();
        ardu::nowMs = wrap ? (unsigned long)(0 - (unsigned long)r.range(1, 3000)) : (unsigned long)r.range(0, 100000);
        struct M { unsigned long at = 0; unsigned long iv = 0; bool single = false, running = false, known = false; };
        std::map<int, M> model;
        std::vector<int> fired;
        std::string hist;
        int reent = 0;
        auto cb = [&](const TimerID_t id) { fired.push_back(id); return true; };
        HandlerID_t h = disp->registerTimerHandler(cb), h2 = disp->registerTimerHandler(cb);
        (void)reent;
        int n = r.range(1, 6), steps = r.range(20, 120);
        long exp = 0;
        for (int s = 0; s < steps; ++s) {
            int id = r.range(1, n);
            M& m = model[id];
            int w = r.below(100);
            if (w < 25) { m.iv = (unsigned long)r.range(1, 200); m.single = r.chance(50); m.at = ardu::nowMs; m.running = m.known = true; DI(disp).startTimer(r.chance(50) ? h : h2, id, (unsigned)m.iv, m.single); hist += "start" + std::to_string(id) + "(" + std::to_string(m.iv) + (m.single ? ",1) " : ",p) "); }
            else if (w < 33) { DI(disp).restartTimer(id); if (m.known) { m.at = ardu::nowMs; m.running = true; } hist += "restart" + std::to_string(id) + " "; }
            else if (w < 42) { DI(disp).stopTimer(id); m.running = m.known = false; hist += "stop" + std::to_string(id) + " "; }
            else if (w < 45) { DI(disp).startTimer(h, id, 0, true); hist += "start0 "; }
            else if (w < 47) { DI(disp).startTimer(9999, id, 5, true); hist += "startUnknownHandler "; }
            else if (w < 60) { if (DI(disp).isTimerRunning(id) != m.running) viol("virt:running", "isTimerRunning() is wrong", hist); }
            else {
                ardu::nowMs += (unsigned long)(r.chance(60) ? r.range(0, 60) : r.range(0, 400));
                hist += "+" + std::to_string(ardu::nowMs) + " ";
                fired.clear();
                disp->dispatchEvents();
                std::vector<int> want;
                for (auto& p : model) if (p.second.running && ardu::nowMs - p.second.at >= p.second.iv) { want.push_back(p.first); p.second.at = ardu::nowMs; if (p.second.single) p.second.running = false; }
                std::sort(fired.begin(), fired.end());
                exp += (long)want.size();
                if (fired != want) { viol("virt:expirations", "expected " + joinInts(want) + " observed " + joinInts(fired), hist); break; }
            }
        }
        disp->unregisterTimerHandler(h); disp->unregisterTimerHandler(h2);
        ardu::nowMs += 5000;
        fired.clear();
        disp->dispatchEvents();
        if (!fired.empty()) viol("virt:unregistered", "timer of an unregistered handler expired");
        R.add("virt_expirations", exp);
        R.add("virt_wraps", wrap && ardu::nowMs < (1ul << 40));
        R.note(hashStr(hist));
        if (idx % 97 == 0) R.sample(ds.str() + " " + hist.substr(0, 300));
        disp->stop();
    });
}
// machines which share the polled dispatcher: exactly the expected timer events of every machine, on virtual time
static void caseVirtHsm(uint64_t seed, long idx) {
    Rng r(seed * 67867967 + (uint64_t)idx);
    Host& H = Host::get();
    std::ostringstream ds;
    bool wrap = r.chance(30);
    ds << "virthsm disp=" << DISP_NAME << " seed=" << seed << " case=" << idx << " wrap=" << wrap;
    desc(ds.str());
    phase("virthsm");
    H.onLoop([&]() {
        auto disp = H.create();
        disp->start();
        ardu::nowMs = wrap ? (unsigned long)(0 - (unsigned long)r.range(1, 3000)) : (unsigned long)r.range(0, 100000);
        struct T { unsigned long at = 0, iv = 0; bool single = false, running = false, known = false; };
        struct Mach {
            std::unique_ptr<HierarchicalStateMachine> h; int base = 0, n = 0; bool alive = false;
            std::vector<int> got, want; std::map<int, T> t; int state = 1;
        };
        std::vector<std::unique_ptr<Mach>> ms;        // objects stay until the end
        std::string hist;
        std::set<int> basesUsed;
        bool bad = false;
        long exp = 0, noise = 0;
        auto fail = [&](const std::string& k, const std::string& m) { if (!bad) viol("virthsm:" + k, m, hist); bad = true; };
        auto build = [&](int base) {
            ms.emplace_back(new Mach);
            Mach& m = *ms.back();
            m.base = base; m.n = r.range(1, 4); m.alive = true;
            m.h.reset(new HierarchicalStateMachine(1));
            m.h->registerState(1); m.h->registerState(2);
            auto rec = [&m](int e) { return [&m, e](const VariantVector_t& a) { m.got.push_back(e + (int)a.size() * 100000); }; };
            m.h->registerTransition(1, 2, 500, rec(500));
            m.h->registerTransition(2, 1, 500, rec(500));
            for (int i = 0; i < m.n; ++i) {
                m.h->registerTimer(base + i, 1000 + i);           // the same events in every machine
                for (int st : {1, 2}) m.h->registerSelfTransition(st, 1000 + i, TransitionType::INTERNAL_TRANSITION, rec(1000 + i));
            }
            m.h->registerFailedTransitionCallback([&m](const std::list<StateID_t>&, const EventID_t e, const VariantVector_t&) { m.got.push_back(-e); });
            if (!m.h->initialize(disp)) fail("init", "initialize() failed");
            hist += "create" + std::to_string(base) + " ";
        };
        auto settle = [&]() {
            std::vector<size_t> last;
            for (int quiet = 0, z = 0; quiet < 3 && z < 400; ++z) {
                std::vector<size_t> now;
                disp->dispatchEvents();
                for (auto& m : ms) now.push_back(m->got.size());
                quiet = now == last ? quiet + 1 : 0;
                last = now;
            }
        };
        int next = 1;
        for (int k = r.range(1, 4); k > 0; --k) { build(next); next += 10; }
        int steps = r.range(20, 120);
        for (int s = 0; s < steps && !bad; ++s) {
            std::vector<Mach*> alive;
            for (auto& m : ms) if (m->alive) alive.push_back(m.get());
            int w = r.below(100);
            if (alive.empty() || w < 4) { if (r.chance(50) || ms.empty()) { build(next); next += 10; } else { int b = ms[r.below((int)ms.size())]->base; bool used = false; for (auto m : alive) used |= m->base == b; if (!used) { build(b); } } ++noise; continue; }
            Mach& m = *alive[(size_t)r.below((int)alive.size())];
            int i = r.below(m.n), id = m.base + i;
            T& t = m.t[id];
            if (w < 30) { t.iv = (unsigned long)r.range(1, 200); t.single = r.chance(50); t.at = ardu::nowMs; t.running = t.known = true; m.h->startTimer(id, (unsigned)t.iv, t.single); hist += "start" + std::to_string(id) + "(" + std::to_string(t.iv) + (t.single ? ",1) " : ",p) "); }
            else if (w < 38) { m.h->restartTimer(id); if (t.known) { t.at = ardu::nowMs; t.running = true; } hist += "restart" + std::to_string(id) + " "; }
            else if (w < 46) { m.h->stopTimer(id); t.running = t.known = false; hist += "stop" + std::to_string(id) + " "; }
            else if (w < 52) { m.h->release(); m.alive = false; for (auto& p : m.t) p.second = T(); hist += "release" + std::to_string(m.base) + " "; }
            else if (w < 56) { m.h.reset(); m.alive = false; for (auto& p : m.t) p.second = T(); hist += "delete" + std::to_string(m.base) + " "; }
            else if (w < 64) { for (auto a : alive) for (auto& p : a->t) if (a->h->isTimerRunning(p.first) != p.second.running) fail("running", "isTimerRunning(" + std::to_string(p.first) + ") is wrong"); }
            else if (w < 70) { m.h->transition(500); m.want.push_back(500); hist += "post" + std::to_string(m.base) + " "; if (r.chance(50)) settle(); continue; }
            else {
                settle();       // events posted before are delivered before the time advances
                ardu::nowMs += (unsigned long)(r.chance(60) ? r.range(0, 60) : r.range(0, 400));
                hist += "+" + std::to_string(ardu::nowMs) + " ";
            }
            // what is due now
            for (auto& mm : ms) if (mm->alive) for (auto& p : mm->t) if (p.second.running && ardu::nowMs - p.second.at >= p.second.iv) { mm->want.push_back(1000 + p.first - mm->base); p.second.at = ardu::nowMs; if (p.second.single) p.second.running = false; ++exp; }
            settle();
            for (auto& mm : ms) {
                std::sort(mm->got.begin(), mm->got.end()); std::sort(mm->want.begin(), mm->want.end());
                if (!mm->alive) { if (!mm->got.empty()) { std::vector<int> rest; std::set_difference(mm->got.begin(), mm->got.end(), mm->want.begin(), mm->want.end(), std::back_inserter(rest)); if (!rest.empty()) fail("after-release", "events of a released machine: " + joinInts(rest)); } }
                else if (mm->got != mm->want) fail("events", "machine " + std::to_string(mm->base) + " expected " + joinInts(mm->want) + " observed " + joinInts(mm->got));
                mm->got.clear(); mm->want.clear();
            }
        }
        for (auto& m : ms) if (m->h) { m->h->release(); m->got.clear(); }
        ardu::nowMs += 5000;
        settle();
        for (auto& m : ms) if (!m->got.empty()) fail("after-release", "event after release");
        ms.clear();
        R.add("virthsm_expirations", exp); R.add("virthsm_machines_created_late", noise);
        R.note(hashStr(hist));
        if (idx % 97 == 0) R.sample(ds.str() + " " + hist.substr(0, 300));
        disp->stop();
    });
}
#endif

int main(int argc, char** argv) {
    Options o(argc, argv);
    gOut = o.str("out", "/dev/null");
    std::string modes = o.str("mode", "raw,hsm");
    uint64_t seed = (uint64_t)o.num("seed", 1);
    long cases = o.num("cases", 20), only = o.num("only", -1);
    std::vector<std::string> ml;
    std::stringstream ss(modes);
    for (std::string t; std::getline(ss, t, ',');) ml.push_back(t);
    Host::get().run([&]() {
        Watchdog wd(45000);
        for (long i = 0; i < cases; ++i) {
            if (only >= 0 && i != only) continue;
            const std::string& m = ml[i % ml.size()];
            R.eval();
#if defined(DISP_ARDUINO)
            if (m == "virt") caseVirt(seed, i);
            else if (m == "virthsm") caseVirtHsm(seed, i);
#else
            if (m == "raw") caseRaw(seed, i);
            else if (m == "hsm") caseHsm(seed, i);
#endif
            if (R.nviol() >= 6) break;
        }
        R.add("perturbation_points", pert::points.load());
        R.add("injected_delays", pert::delays.load());
    });
    R.write(gOut);
    finishProcess();
}
