// Builds a real HierarchicalStateMachine from a Spec. Uses only the public API.
#pragma once
#include "machine.hpp"

namespace vm {

// Dispatcher with a logical clock: implements the public IHsmEventDispatcher interface from scratch,
// runs handlers on the calling thread and never sleeps.
class StepDispatcher : public IHsmEventDispatcher {
public:
    bool start() override { return true; }
    void stop() override { stopped = true; }
    HandlerID_t registerEventHandler(const EventHandlerFunc_t& h) override { ev[++next] = h; return next; }
    void unregisterEventHandler(const HandlerID_t id) override { ev.erase(id); pending.remove(id); }
    HandlerID_t registerEnqueuedEventHandler(const EnqueuedEventHandlerFunc_t& h) override { enq[++next] = h; return next; }
    void unregisterEnqueuedEventHandler(const HandlerID_t id) override { enq.erase(id); }
    HandlerID_t registerTimerHandler(const TimerHandlerFunc_t& h) override { tm[++next] = h; return next; }
    void unregisterTimerHandler(const HandlerID_t id) override { tm.erase(id); }
    void emitEvent(const HandlerID_t id) override { pending.push_back(id); ++emits; if (!paused) pump(); }
    bool enqueueEvent(const HandlerID_t id, const EventID_t e) override { enqueued.push_back({id, e}); if (!paused) pump(); return true; }
    void enqueueAction(ActionHandlerFunc_t a) override { acts.push_back(std::move(a)); if (!paused) pump(); }
    void startTimer(const HandlerID_t h, const TimerID_t t, const unsigned int ms, const bool s) override {
        running[t] = h;
        if (onTimer) onTimer("TS" + std::to_string(t) + "," + std::to_string(ms) + "," + std::to_string(s));
    }
    void restartTimer(const TimerID_t t) override { if (onTimer) onTimer("TR" + std::to_string(t)); }
    void stopTimer(const TimerID_t t) override { running.erase(t); if (onTimer) onTimer("TP" + std::to_string(t)); }
    bool isTimerRunning(const TimerID_t t) override { return running.count(t) != 0; }

    bool idle() const { return pending.empty() && enqueued.empty() && acts.empty(); }
    bool stepOne() {
        if (busy) return false;
        busy = true;
        bool did = false;
        if (!acts.empty()) { auto a = acts.front(); acts.pop_front(); a(); did = true; }
        else if (!enqueued.empty()) {
            auto e = enqueued.front(); enqueued.pop_front();
            auto it = enq.find(e.first);
            if (it != enq.end()) { auto f = it->second; f(e.second); }
            did = true;
        } else if (!pending.empty()) {
            auto h = pending.front(); pending.pop_front();
            auto it = ev.find(h);
            if (it != ev.end()) { auto f = it->second; f(); }
            ++handled;
            did = true;
        }
        busy = false;
        return did;
    }
    void pump(long limit = 4000) { if (busy) return; while (limit-- > 0 && stepOne()) {} if (limit <= 0) overrun = true; }
    bool fireTimer(TimerID_t t) {
        auto it = running.find(t);
        if (it == running.end()) return false;
        auto h = tm.find(it->second);
        if (h == tm.end()) return false;
        bool wasPaused = paused; paused = true;
        auto f = h->second; f(t);
        paused = wasPaused;
        if (!paused) pump();
        return true;
    }

    bool paused = false, busy = false, stopped = false, overrun = false;
    long handled = 0, emits = 0;
    HandlerID_t next = 0;
    std::map<HandlerID_t, EventHandlerFunc_t> ev;
    std::map<HandlerID_t, EnqueuedEventHandlerFunc_t> enq;
    std::map<HandlerID_t, TimerHandlerFunc_t> tm;
    std::map<TimerID_t, HandlerID_t> running;
    std::list<HandlerID_t> pending;
    std::list<std::pair<HandlerID_t, EventID_t>> enqueued;
    std::list<ActionHandlerFunc_t> acts;
    std::function<void(const std::string&)> onTimer;
};

struct Real {
    const Spec& sp;
    Env env;
    std::map<int, int> s2i, e2i;   // real ids -> indices
    struct Obj {                   // target for member-function style registration
        Real* r; int idx; Cond c;
        void changed(const VariantVector_t& a) { r->env.changed(idx, fromVariants(a)); }
        bool entering(const VariantVector_t& a) { return r->env.enter(idx, fromVariants(a)); }
        bool exiting() { return r->env.exit(idx); }
        void trans(const VariantVector_t& a) { r->env.trans(idx, fromVariants(a)); }
        void hist(const VariantVector_t& a) { r->env.hist(idx, fromVariants(a)); }
        bool cond(const VariantVector_t& a) { return Env::cond(c, fromVariants(a)); }
        void failed(const std::list<StateID_t>& act, const EventID_t e, const VariantVector_t& a) { r->onFailed(act, e, a); }
    };
    std::list<Obj> objs;
    std::unique_ptr<HierarchicalStateMachine> hsm;
    std::function<HierarchicalStateMachine*(int)> make;   // to use a derived class
    std::shared_ptr<IHsmEventDispatcher> disp;

    explicit Real(const Spec& s) : sp(s) {
        env.spec = &sp;
        for (size_t i = 0; i < sp.st.size(); ++i) s2i[sp.st[i].id] = (int)i;
        for (size_t i = 0; i < sp.evId.size(); ++i) e2i[sp.evId[i]] = (int)i;
    }
    Obj* obj(int idx, Cond c = Cond()) { objs.push_back({this, idx, c}); return &objs.back(); }
    int ev(int e) const { return e < 0 ? INVALID_HSM_EVENT_ID : sp.evId[e]; }
    int sid(int s) const { return s < 0 ? INVALID_HSM_STATE_ID : sp.st[s].id; }
    int sidx(int id) const { auto it = s2i.find(id); return it == s2i.end() ? -99 : it->second; }
    int eidx(int id) const { if (id == INVALID_HSM_EVENT_ID) return NOEVENT; auto it = e2i.find(id); return it == e2i.end() ? -99 : it->second; }
    std::vector<int> active() const { std::vector<int> r; for (auto s : hsm->getActiveStates()) r.push_back(sidx(s)); return r; }
    void onFailed(const std::list<StateID_t>& act, EventID_t e, const VariantVector_t& a) {
        std::vector<int> v;
        for (auto s : act) v.push_back(sidx(s));
        env.failed(v, eidx(e), fromVariants(a));
    }
    HsmTransitionConditionCallback_t condFn(const Cond& c) {
        if (c.bit < 0) return nullptr;
        return [c](const VariantVector_t& a) { return Env::cond(c, fromVariants(a)); };
    }
    static VariantVector_t vlist(const std::vector<Val>& v) { VariantVector_t r; for (auto& e : v) r.push_back(toVariant(e)); return r; }

    void build() {
        // the initial state is given to the constructor or set later
        int how = (int)((sp.st.size() * 7 + sp.evId.size() * 3 + (sp.st.back().id & 7)) % 4);
        int first = how < 2 ? sid(sp.initial) : how == 2 ? sp.st.back().id : INVALID_HSM_STATE_ID;
        hsm.reset(make ? make(first) : new HierarchicalStateMachine(first));
        if (how == 2) hsm->setInitialState(sid(sp.initial));
        for (size_t i = 0; i < sp.st.size(); ++i) {
            auto& s = sp.st[i];
            int k = (int)i;
            if (!s.registered) continue;
            if (s.objStyle) {
                Obj* o = obj(k);
                if (s.isFinal)
                    hsm->registerFinalState<Obj>(s.id, ev(s.finalEvent), o, s.cbChanged ? &Obj::changed : nullptr, s.cbEnter ? &Obj::entering : nullptr, s.cbExit ? &Obj::exiting : nullptr);
                else
                    hsm->registerState<Obj>(s.id, o, s.cbChanged ? &Obj::changed : nullptr, s.cbEnter ? &Obj::entering : nullptr, s.cbExit ? &Obj::exiting : nullptr);
            } else {
                HsmStateChangedCallback_t c; HsmStateEnterCallback_t e; HsmStateExitCallback_t x;
                if (s.cbChanged) c = [this, k](const VariantVector_t& a) { env.changed(k, fromVariants(a)); };
                if (s.cbEnter) e = [this, k](const VariantVector_t& a) { return env.enter(k, fromVariants(a)); };
                if (s.cbExit) x = [this, k]() { return env.exit(k); };
                if (s.isFinal) hsm->registerFinalState(s.id, ev(s.finalEvent), c, e, x);
                else hsm->registerState(s.id, c, e, x);
            }
        }
        // substates and entry points in the order the specification gives
        for (int i : sp.regOrder) {
            auto& s = sp.st[i];
            if (s.parent < 0) continue;
            bool isEntry = false;
            for (auto& e : sp.entry) if (e.state == i && e.parent == s.parent) isEntry = true;
            // a substate can also become an entry point later
            if ((!isEntry || s.objStyle) && !hsm->registerSubstate(sid(s.parent), s.id)) env.tok("registerSubstate refused a valid substate");
        }
        for (auto& e : sp.entry) {
            bool ok;
            if (e.c.bit >= 0 && sp.st[e.state].objStyle)
                ok = hsm->registerSubstateEntryPoint<Obj>(sid(e.parent), sid(e.state), ev(e.onEvent), obj(e.state, e.c), &Obj::cond, e.c.expected);
            else
                ok = hsm->registerSubstateEntryPoint(sid(e.parent), sid(e.state), ev(e.onEvent), condFn(e.c), e.c.expected);
            if (!ok) env.tok("registerSubstateEntryPoint refused a valid entry point");
        }
        for (size_t i = 0; i < sp.st.size(); ++i) {
            auto& s = sp.st[i];
            if (!s.history) continue;
            int k = (int)i;
            auto type = s.history == 1 ? HistoryType::SHALLOW : HistoryType::DEEP;
            if (s.histCb && s.objStyle) hsm->registerHistory<Obj>(sid(s.histParent), s.id, type, sid(s.histDefault), obj(k), &Obj::hist);
            else {
                HsmTransitionCallback_t cb;
                if (s.histCb) cb = [this, k](const VariantVector_t& a) { env.hist(k, fromVariants(a)); };
                hsm->registerHistory(sid(s.histParent), s.id, type, sid(s.histDefault), cb);
            }
        }
        for (size_t i = 0; i < sp.tr.size(); ++i) {
            auto& t = sp.tr[i];
            int k = (int)i;
            HsmTransitionCallback_t cb;
            if (t.cb) cb = [this, k](const VariantVector_t& a) { env.trans(k, fromVariants(a)); };
            auto tt = t.internal ? TransitionType::INTERNAL_TRANSITION : TransitionType::EXTERNAL_TRANSITION;
            if (t.objStyle && t.cb) {
                Obj* o = obj(k, t.c);
                if (t.self) hsm->registerSelfTransition<Obj>(sid(t.from), ev(t.event), tt, o, &Obj::trans, t.c.bit >= 0 ? &Obj::cond : nullptr, t.c.expected);
                else hsm->registerTransition<Obj>(sid(t.from), sid(t.to), ev(t.event), o, &Obj::trans, t.c.bit >= 0 ? &Obj::cond : nullptr, t.c.expected);
            } else if (t.self) hsm->registerSelfTransition(sid(t.from), ev(t.event), tt, cb, condFn(t.c), t.c.expected);
            else hsm->registerTransition(sid(t.from), sid(t.to), ev(t.event), cb, condFn(t.c), t.c.expected);
        }
        for (auto& a : sp.act) {
            auto trig = a.onEntry ? StateActionTrigger::ON_STATE_ENTRY : StateActionTrigger::ON_STATE_EXIT;
            bool ok = false;
            if (a.kind == 0 && a.b <= 255 && a.a % 2) ok = hsm->registerStateAction(sid(a.state), trig, StateAction::START_TIMER, (int64_t)a.a, (uint8_t)a.b, a.c);
            else if (a.kind == 0 && a.b <= 2147483647) ok = hsm->registerStateAction(sid(a.state), trig, StateAction::START_TIMER, (TimerID_t)a.a, (int32_t)a.b, a.c);
            else if (a.kind == 0 && a.a % 2) ok = hsm->registerStateAction(sid(a.state), trig, StateAction::START_TIMER, (TimerID_t)a.a, (uint32_t)a.b, a.c);
            else if (a.kind == 0) ok = hsm->registerStateAction(sid(a.state), trig, StateAction::START_TIMER, (TimerID_t)a.a, (int64_t)a.b, a.c);
            else if (a.kind == 1) ok = hsm->registerStateAction(sid(a.state), trig, StateAction::STOP_TIMER, (TimerID_t)a.a);
            else if (a.kind == 2) ok = hsm->registerStateAction(sid(a.state), trig, StateAction::RESTART_TIMER, (TimerID_t)a.a);
            else if (a.args.empty()) ok = hsm->registerStateAction(sid(a.state), trig, StateAction::TRANSITION, (EventID_t)ev(a.a));
            else if (a.args.size() == 1) ok = hsm->registerStateAction(sid(a.state), trig, StateAction::TRANSITION, (EventID_t)ev(a.a), toVariant(a.args[0]));
            else if (a.args.size() == 2) ok = hsm->registerStateAction(sid(a.state), trig, StateAction::TRANSITION, (EventID_t)ev(a.a), toVariant(a.args[0]), toVariant(a.args[1]));
            else ok = hsm->registerStateAction(sid(a.state), trig, StateAction::TRANSITION, (EventID_t)ev(a.a), toVariant(a.args[0]), toVariant(a.args[1]), toVariant(a.args[2]));
            if (!ok) env.tok("registerStateAction refused valid arguments");
        }
        if (sp.failedCb) {
            if (sp.st[0].objStyle) hsm->registerFailedTransitionCallback<Obj>(obj(-1), &Obj::failed);
            else hsm->registerFailedTransitionCallback([this](const std::list<StateID_t>& a, const EventID_t e, const VariantVector_t& v) { onFailed(a, e, v); });
        }
        if (how == 3) hsm->setInitialState(sid(sp.initial));
    }
};

// ---------------------------------------------------------------- generator
struct Profile {
    int maxStates = 9;
    int hist = 0;         // % chance per composite
    int finals = 0;       // % per leaf inside a composite
    int refuse = 0;       // % of steps with refusals
    int actions = 0;      // expected number of state actions *100
    int posts = 0;        // % states posting from callbacks
    int cond = 30;        // % guarded transitions
    int multi = 15;       // % chance of duplicating (state,event) with another target
    int cross = 0;        // % transitions across levels
    int parallelEntry = 30;
    int condEntry = 15;
    int noEntry = 8;      // % composites without unconditional entry point
    int cbMissing = 12;   // % missing callbacks
    bool sequential = false;
    int self = 12, internal = 50, toParent = 5;
    int richArgs = 15;
    int batch = 25;       // % of steps posting a batch while the dispatcher is paused
    int clear = 5;        // % of posts that clear the queue
    int steps = 30;
    int nested = 55;      // chance that a state is nested
};

inline Val randVal(Rng& r, int depth = 0) {
    Val v;
    switch (r.below(depth > 1 ? 5 : 6)) {
        case 0: v.t = 'i'; v.i = (int64_t)(r.next() >> r.below(63)) * (r.chance(50) ? 1 : -1); break;
        case 1: { v.t = 's'; int n = r.below(24); for (int i = 0; i < n; ++i) v.s += (char)r.range(32, 126); break; }
        case 2: v.t = 'b'; v.i = r.below(2); break;
        case 3: v.t = 'd'; v.d = (r.unit() - 0.5) * 1e6; break;
        case 4: { v.t = 'y'; int n = r.below(10); for (int i = 0; i < n; ++i) v.s += (char)r.range(0, 255); break; }
        default: { v.t = 'v'; int n = r.below(4); for (int i = 0; i < n; ++i) v.v.push_back(randVal(r, depth + 1)); }
    }
    return v;
}

inline Spec genSpec(Rng& r, const Profile& p) {
    Spec sp;
    sp.sequential = p.sequential;
    int n = r.range(3, p.maxStates);
    std::set<int> used;
    auto freshId = [&]() { int v; do { v = r.chance(70) ? r.below(60) : (int)(r.next() & 0x7fffffff) * (r.chance(40) ? -1 : 1); } while (v == INVALID_ID || !used.insert(v).second); return v; };
    std::vector<int> depth(n, 0);
    for (int i = 0; i < n; ++i) {
        StateSpec s;
        s.id = freshId();
        if (i > 1 && r.chance(p.nested)) {
            int par = r.below(i);
            if (depth[par] < 3) { s.parent = par; depth[i] = depth[par] + 1; }
        }
        s.cbEnter = !r.chance(p.cbMissing); s.cbExit = !r.chance(p.cbMissing); s.cbChanged = !r.chance(p.cbMissing);
        s.registered = !r.chance(p.cbMissing / 4);
        s.objStyle = r.chance(25);
        sp.st.push_back(s);
    }
    int nev = r.range(2, 5);
    std::set<int> usedE;
    for (int i = 0; i < nev; ++i) { int v; do { v = r.chance(70) ? r.below(40) : (int)(r.next() & 0x7fffffff); } while (!usedE.insert(v).second); sp.evId.push_back(v); }
    for (int i = 0; i < n; ++i) {
        auto ch = sp.children(i);
        if (ch.empty()) continue;
        if (p.sequential) { sp.entry.push_back({i, ch[r.below((int)ch.size())], NOEVENT, Cond()}); continue; }
        bool any = false;
        for (int c : ch) {
            if (!any && !r.chance(p.noEntry)) { sp.entry.push_back({i, c, NOEVENT, Cond()}); any = true; continue; }
            if (r.chance(p.parallelEntry)) {
                EntrySpec e{i, c, NOEVENT, Cond()};
                if (r.chance(p.condEntry * 2)) e.onEvent = r.below(nev);
                if (r.chance(p.condEntry * 2)) { e.c.bit = r.below(4); e.c.expected = r.chance(60); }
                sp.entry.push_back(e);
                if ((e.onEvent != NOEVENT || e.c.bit >= 0) && r.chance(25)) {   // the same state for another event or condition
                    e.onEvent = r.chance(60) ? r.below(nev) : NOEVENT;
                    if (r.chance(50)) { e.c.bit = r.below(4); e.c.expected = r.chance(60); }
                    sp.entry.push_back(e);
                }
            }
        }
    }
    // final states
    for (int i = 0; i < n; ++i)
        if (sp.st[i].parent >= 0 && !sp.composite(i) && r.chance(p.finals)) {
            bool onlyEntry = false;
            if (!onlyEntry) { sp.st[i].isFinal = true; sp.st[i].registered = true; sp.st[i].finalEvent = r.chance(50) ? r.below(nev) : NOEVENT; }
        }
    for (int i = 0; i < n; ++i)
        if (sp.st[i].parent < 0 && i > 0 && !sp.composite(i) && r.chance(p.finals / 4)) { sp.st[i].isFinal = true; sp.st[i].registered = true; sp.st[i].finalEvent = r.chance(50) ? r.below(nev) : NOEVENT; }
    // history pseudo states
    for (int i = 0; i < n; ++i) {
        if (!sp.composite(i) || !r.chance(p.hist)) continue;
        int cnt = r.chance(25) ? 2 : 1;
        for (int k = 0; k < cnt; ++k) {
            StateSpec h;
            h.id = freshId();
            h.history = r.range(1, 2);
            h.histParent = i;
            auto ch = sp.children(i);
            if (r.chance(50)) h.histDefault = ch[r.below((int)ch.size())];
            h.histCb = r.chance(60);
            h.registered = r.chance(40);
            h.objStyle = r.chance(25);
            h.cbEnter = r.chance(50); h.cbExit = false; h.cbChanged = r.chance(60);
            sp.st.push_back(h);
        }
    }
    int total = (int)sp.st.size();
    auto siblings = [&](int s) { std::vector<int> v; for (int i = 0; i < n; ++i) if (sp.st[i].parent == sp.st[s].parent && i != s) v.push_back(i); return v; };
    int nt = r.range(n + 2, 3 * n + 2);
    std::set<std::pair<int, int>> usedSE;
    for (int k = 0; k < nt; ++k) {
        TransSpec t;
        t.from = r.below(n);
        t.event = r.below(nev);
        if (sp.st[t.from].isFinal && r.chance(80)) continue;
        t.cb = !r.chance(p.cbMissing);
        t.objStyle = r.chance(25);
        if (r.chance(p.cond) && !p.sequential) { t.c.bit = r.below(4); t.c.expected = r.chance(60); }
        if (r.chance(p.self)) { t.self = true; t.to = t.from; t.internal = r.chance(p.internal); }
        else if (r.chance(p.toParent) && sp.st[t.from].parent >= 0) t.to = sp.st[t.from].parent;
        else if (r.chance(p.cross)) { do { t.to = r.below(n); } while (t.to == t.from); if (sp.within(t.from, t.to)) continue; }
        else {
            auto sib = siblings(t.from);
            if (total > n && r.chance(60)) {
                std::vector<int> hs;
                for (int h = n; h < total; ++h) { int hp = sp.st[h].histParent; if (hp != t.from && (std::find(sib.begin(), sib.end(), hp) != sib.end() || (hp == sp.st[t.from].parent && r.chance(15)))) hs.push_back(h); }
                if (!hs.empty()) sib = hs;
            }
            if (sib.empty()) continue;
            t.to = sib[r.below((int)sib.size())];
        }
        bool dup = !usedSE.insert({t.from, t.event}).second;
        if (dup && (p.sequential || !r.chance(p.multi * 3))) continue;
        // a history target combined with further targets of the same (state,event) is outside the supported structure
        bool clash = false;
        for (auto& o : sp.tr) if (o.from == t.from && o.event == t.event && ((sp.st[t.to].history) || sp.st[o.to].history)) clash = true;
        if (clash) continue;
        sp.tr.push_back(t);
        if (!p.sequential && r.chance(p.multi) && !t.self && !sp.st[t.to].history) {
            auto sib = siblings(t.from);
            if (sib.size() > 1) { TransSpec t2 = t; t2.to = sib[r.below((int)sib.size())]; if (t2.to != t.to) sp.tr.push_back(t2); }
        }
    }
    if (p.actions) {
        int na = r.below(p.actions * 2 / 100 + 1);
        for (int k = 0; k < na; ++k) {
            ActionSpec a{};
            a.state = r.below(n); a.onEntry = r.chance(60); a.kind = r.below(4);
            if (a.kind == 3) {
                a.a = r.below(nev);
                int cnt = r.below(4);
                for (int j = 0; j < cnt; ++j) { Val v = randVal(r); if (j == 0) { v = Val(); v.i = r.below(16); } a.args.push_back(v); }
            } else {
                static const int ids[] = {0, 1, 2, 3, 3, 255, 70000, 2147483647, -7};
                a.a = r.chance(70) ? r.below(4) : ids[r.below(9)];
                a.b = r.chance(60) ? r.range(1, 5000) : r.chance(50) ? r.range(1, 300) : (int64_t)1 << r.range(8, 31);
                if (a.b >= 256 && r.chance(40)) a.b += r.range(-1, 60);
                a.c = r.chance(50);
            }
            sp.act.push_back(a);
        }
    }
    for (int i = 0; i < n; ++i)
        if (r.chance(p.posts)) { auto& s = sp.st[i]; s.postKind = r.chance(70) ? 1 : 2; s.postEvent = r.below(nev); s.postMask = r.below(16); s.cbChanged = true; s.registered = true; }
    std::vector<int> tops;
    for (int i = 0; i < n; ++i) if (sp.st[i].parent < 0 && !sp.st[i].isFinal) tops.push_back(i);
    sp.initial = tops[r.below((int)tops.size())];
    for (int i = 0; i < n; ++i) sp.regOrder.push_back(i);
    for (int i = n - 1; i > 0; --i) std::swap(sp.regOrder[i], sp.regOrder[r.below(i + 1)]);
    sp.failedCb = r.chance(90);
    return sp;
}
}  // namespace vm
