#include "common.hpp"
#include <hsmcpp/IHsmEventDispatcher.hpp>
#include "scxml_rt.hpp"
#include <algorithm>
#include <list>

namespace vh { Result R; std::string gOut = "/dev/null"; }
using namespace vh;

namespace sx {
std::vector<Doc>& docs() { static std::vector<Doc> d; return d; }

static std::string args(const VariantVector_t& a) { std::string s = "("; for (auto& v : a) s += (s.size() > 1 ? "," : "") + v.toString(); return s + ")"; }
void Rec::put(const std::string& s) { if (log.size() < 20000) log.push_back(s); }
bool Rec::answer(const std::string& name, int percent) {
    int n = ++count[name];
    Rng r(hashStr(name) ^ (seed * 1000003ull + (unsigned)n));
    return r.chance(percent);
}
void Rec::action(const char* name, const VariantVector_t& a) { put(name + args(a)); }
bool Rec::guard(const char* name, const VariantVector_t& a) { bool r = answer(name, 55); put(std::string("?") + name + args(a) + (r ? "=1" : "=0")); return r; }
bool Rec::enter(const char* name, const VariantVector_t& a) { bool r = answer(name, 92); put(std::string(">") + name + args(a) + (r ? "=1" : "=0")); return r; }
bool Rec::exit(const char* name) { bool r = answer(name, 92); put(std::string("<") + name + (r ? "=1" : "=0")); return r; }

typedef std::map<std::string, int> Ids;
static std::string byId(const Ids& m, int id) { for (auto& p : m) if (p.second == id) return p.first; return "#" + std::to_string(id); }
static std::string active(const std::list<StateID_t>& l, const Ids& m) {
    std::vector<std::string> v;
    for (auto s : l) v.push_back(byId(m, s));
    std::sort(v.begin(), v.end());
    std::string o;
    for (auto& s : v) o += s + " ";
    return o;
}
void Gen::failed(const std::list<StateID_t>& act, int e, const VariantVector_t& a) { rec.put("failed " + byId(events, e) + args(a) + " in " + active(act, states)); }

// dispatcher which runs everything on the calling thread; timers only expire when asked to
class Steps : public IHsmEventDispatcher {
public:
    explicit Steps(Rec& r, const Ids& t) : rec(r), timers(t) {}
    bool start() override { return true; }
    void stop() override {}
    HandlerID_t registerEventHandler(const EventHandlerFunc_t& h) override { ev[++next] = h; return next; }
    void unregisterEventHandler(const HandlerID_t id) override { ev.erase(id); pending.remove(id); }
    HandlerID_t registerEnqueuedEventHandler(const EnqueuedEventHandlerFunc_t& h) override { enq[++next] = h; return next; }
    void unregisterEnqueuedEventHandler(const HandlerID_t id) override { enq.erase(id); }
    HandlerID_t registerTimerHandler(const TimerHandlerFunc_t& h) override { tm[++next] = h; return next; }
    void unregisterTimerHandler(const HandlerID_t id) override { tm.erase(id); }
    void emitEvent(const HandlerID_t id) override { pending.push_back(id); if (pending.size() > 64) overrun = true; }
    bool enqueueEvent(const HandlerID_t, const EventID_t) override { return false; }
    void enqueueAction(ActionHandlerFunc_t a) override { acts.push_back(std::move(a)); }
    void startTimer(const HandlerID_t h, const TimerID_t t, const unsigned int ms, const bool s) override {
        running[t] = {h, s};
        rec.put("start timer " + byId(timers, t) + " " + std::to_string(ms) + (s ? " once" : " periodic"));
    }
    void restartTimer(const TimerID_t t) override { rec.put("restart timer " + byId(timers, t)); }
    void stopTimer(const TimerID_t t) override { running.erase(t); rec.put("stop timer " + byId(timers, t)); }
    bool isTimerRunning(const TimerID_t t) override { return running.count(t) != 0; }
    void pump(int limit = 300) {
        while (limit-- > 0 && !(acts.empty() && pending.empty())) {
            if (!acts.empty()) { auto a = acts.front(); acts.pop_front(); a(); continue; }
            auto h = pending.front(); pending.pop_front();
            auto it = ev.find(h);
            if (it != ev.end()) { auto f = it->second; f(); }
        }
        if (limit <= 0) overrun = true;
    }
    void expire(TimerID_t t) {
        auto it = running.find(t);
        if (it == running.end()) return;
        auto e = it->second;
        if (e.second) running.erase(it);
        auto h = tm.find(e.first);
        if (h != tm.end()) { auto f = h->second; f(t); }
    }
    Rec& rec;
    const Ids& timers;
    bool overrun = false;
    HandlerID_t next = 0;
    std::map<HandlerID_t, EventHandlerFunc_t> ev;
    std::map<HandlerID_t, EnqueuedEventHandlerFunc_t> enq;
    std::map<HandlerID_t, TimerHandlerFunc_t> tm;
    std::map<TimerID_t, std::pair<HandlerID_t, bool>> running;
    std::list<HandlerID_t> pending;
    std::list<ActionHandlerFunc_t> acts;
};

// the machine which the document describes, registered directly
struct Ref {
    Rec rec;
    Ids states, events, timers;
    std::unique_ptr<HierarchicalStateMachine> hsm;
    int id(Ids& m, const std::string& n, int base) { auto it = m.find(n); if (it == m.end()) it = m.insert({n, base + 7 * (int)m.size()}).first; return it->second; }
    int st(const std::string& n) { return id(states, n, 1000); }
    int evt(const std::string& n) { return n == "-" ? (int)INVALID_HSM_EVENT_ID : id(events, n, 5000); }
    int tmr(const std::string& n) { return id(timers, n, 9000); }
    HsmTransitionCallback_t trans(const std::string& n) { if (n == "-") return nullptr; return [this, n](const VariantVector_t& a) { rec.action(n.c_str(), a); }; }
    HsmTransitionConditionCallback_t cond(const std::string& n) { if (n == "-") return nullptr; return [this, n](const VariantVector_t& a) { return rec.guard(n.c_str(), a); }; }
    static Variant value(const std::string& s) {
        if (s == "true" || s == "false") return Variant(s == "true");
        if (!s.empty() && s[0] == '"') return Variant(s.substr(1, s.size() - 2));
        return Variant((int)atoi(s.c_str()));
    }
    void build(const std::string& table) {
        std::stringstream in(table);
        std::string line;
        while (std::getline(in, line)) {
            std::stringstream l(line);
            std::vector<std::string> f;
            for (std::string t; l >> t;) f.push_back(t);
            if (f.empty()) continue;
            const std::string& k = f[0];
            if (k == "init") {
                hsm.reset(new HierarchicalStateMachine(st(f[1])));
                hsm->registerFailedTransitionCallback([this](const std::list<StateID_t>& act, const EventID_t e, const VariantVector_t& a) {
                    rec.put("failed " + byId(events, e) + args(a) + " in " + active(act, states)); });
            } else if (k == "state" || k == "final") {  // name onstate onentry onexit [event]
                HsmStateChangedCallback_t c = nullptr;
                HsmStateEnterCallback_t en = nullptr;
                HsmStateExitCallback_t ex = nullptr;
                std::string a = f[2], b = f[3], d = f[4];
                if (a != "-") c = [this, a](const VariantVector_t& v) { rec.action(a.c_str(), v); };
                if (b != "-") en = [this, b](const VariantVector_t& v) { return rec.enter(b.c_str(), v); };
                if (d != "-") ex = [this, d]() { return rec.exit(d.c_str()); };
                if (k == "state") hsm->registerState(st(f[1]), c, en, ex);
                else hsm->registerFinalState(st(f[1]), evt(f[5]), c, en, ex);
            } else if (k == "hist") {                    // parent name type default callback
                st(f[2]);
                hsm->registerHistory(st(f[1]), st(f[2]), f[3] == "deep" ? HistoryType::DEEP : HistoryType::SHALLOW, f[4] == "-" ? (int)INVALID_HSM_STATE_ID : st(f[4]), trans(f[5]));
            } else if (k == "entry") {                   // parent child event cond expected
                (void)hsm->registerSubstateEntryPoint(st(f[1]), st(f[2]), evt(f[3]), cond(f[4]), f[5] == "true");
            } else if (k == "sub") (void)hsm->registerSubstate(st(f[1]), st(f[2]));
            else if (k == "trans") hsm->registerTransition(st(f[1]), st(f[2]), evt(f[3]), trans(f[4]), cond(f[5]), f[6] == "true");   // from to event callback cond expected
            else if (k == "self") hsm->registerSelfTransition(st(f[1]), evt(f[2]), f[3] == "internal" ? TransitionType::INTERNAL_TRANSITION : TransitionType::EXTERNAL_TRANSITION, trans(f[4]), cond(f[5]), f[6] == "true");
            else if (k == "timer") hsm->registerTimer(tmr(f[1]), evt(f[2]));
            else if (k == "event") evt(f[1]);
            else if (k == "action") {                    // state trigger function arguments
                auto tr = f[2] == "entry" ? StateActionTrigger::ON_STATE_ENTRY : StateActionTrigger::ON_STATE_EXIT;
                int s = st(f[1]);
                if (f[3] == "start_timer") (void)hsm->registerStateAction(s, tr, StateAction::START_TIMER, (TimerID_t)tmr(f[4]), atoi(f[5].c_str()), f[6] == "true");
                else if (f[3] == "stop_timer") (void)hsm->registerStateAction(s, tr, StateAction::STOP_TIMER, (TimerID_t)tmr(f[4]));
                else if (f[3] == "restart_timer") (void)hsm->registerStateAction(s, tr, StateAction::RESTART_TIMER, (TimerID_t)tmr(f[4]));
                else if (f.size() == 5) (void)hsm->registerStateAction(s, tr, StateAction::TRANSITION, (EventID_t)evt(f[4]));
                else if (f.size() == 6) (void)hsm->registerStateAction(s, tr, StateAction::TRANSITION, (EventID_t)evt(f[4]), value(f[5]));
                else (void)hsm->registerStateAction(s, tr, StateAction::TRANSITION, (EventID_t)evt(f[4]), value(f[5]), value(f[6]));
            } else { fprintf(stderr, "unknown line %s\n", line.c_str()); abort(); }
        }
    }
};

static bool runDoc(const Doc& d, uint64_t seed) {
    Rng r(seed);
    Ref ref;
    ref.build(d.table);
    auto gen = d.make();
    ref.rec.seed = gen->rec.seed = seed;
    const std::string doc = std::string(d.name) + "\n" + d.table;
    auto fail = [&](const std::string& k, const std::string& m, const std::string& more = "") { R.violate("scxml:" + k, m, more + "\n" + doc); return false; };
    // the same names, every name with its own value
    for (auto* p : {&gen->states, &gen->events, &gen->timers}) { std::set<int> v; for (auto& e : *p) if (!v.insert(e.second).second) return fail("ids", "two names have the same value: " + e.first); }
    for (auto& e : gen->states) if (gen->sname(e.second) != e.first) return fail("state-name", "name of state " + e.first + " is '" + gen->sname(e.second) + "'");
    for (auto& e : gen->events) if (gen->ename(e.second) != e.first) return fail("event-name", "name of event " + e.first + " is '" + gen->ename(e.second) + "'");
    auto dg = std::make_shared<Steps>(gen->rec, gen->timers), dr = std::make_shared<Steps>(ref.rec, ref.timers);
    std::string hist = "init";
    auto same = [&]() {
        auto &a = gen->rec.log, &b = ref.rec.log;
        R.add("steps");
        R.add("callbacks", (long)b.size());
        for (size_t i = 0; i < std::max(a.size(), b.size()); ++i) {
            std::string x = i < a.size() ? a[i] : "<nothing>", y = i < b.size() ? b[i] : "<nothing>";
            if (x != y) {
                std::string all = "after " + hist + "\nexpected:";
                for (auto& s : b) all += " " + s;
                all += "\ngenerated:";
                for (auto& s : a) all += " " + s;
                return fail("behaviour", "generated machine does '" + x + "' instead of '" + y + "'", all);
            }
        }
        a.clear(); b.clear();
        auto s1 = active(gen->m().getActiveStates(), gen->states), s2 = active(ref.hsm->getActiveStates(), ref.states);
        if (s1 != s2) return fail("states", "generated machine is in " + s1 + "instead of " + s2, "after " + hist);
        R.note(hashStr(d.name + s2));
        return true;
    };
    bool i1 = gen->init(dg), i2 = ref.hsm->initialize(dr);
    if (i1 != i2) return fail("initialize", "result of initialize");
    dg->pump(); dr->pump();
    if (!same()) return false;
    std::vector<std::string> ev, tm;
    for (auto& e : ref.events) ev.push_back(e.first);
    for (auto& e : ref.timers) tm.push_back(e.first);
    for (int s = 0; s < 150 && !ev.empty(); ++s) {
        int op = r.below(12);
        if (op < 9 || tm.empty()) {
            const std::string& e = ev[r.below((int)ev.size())];
            hist += " " + e;
            int n = r.below(3), x = r.below(100);
            if (n == 0) { gen->m().transition(gen->events.at(e)); ref.hsm->transition(ref.events.at(e)); }
            else if (n == 1) { gen->m().transition(gen->events.at(e), x); ref.hsm->transition(ref.events.at(e), x); }
            else { gen->m().transition(gen->events.at(e), x, std::string("t")); ref.hsm->transition(ref.events.at(e), x, std::string("t")); }
        } else {
            const std::string& t = tm[r.below((int)tm.size())];
            hist += " " + t;
            if (op == 9) { gen->m().startTimer(gen->timers.at(t), 5 + s, true); ref.hsm->startTimer(ref.timers.at(t), 5 + s, true); }
            else { dg->expire(gen->timers.at(t)); dr->expire(ref.timers.at(t)); R.add("expirations"); }
        }
        if (r.chance(85)) { dg->pump(); dr->pump(); if (!same()) return false; }
        if (dg->overrun || dr->overrun) { R.add("endless"); break; }
    }
    dg->pump(); dr->pump();
    return same();
}
}  // namespace sx

int main(int argc, char** argv) {
    using namespace sx;
    Options o(argc, argv);
    gOut = o.str("out", "/dev/null");
    uint64_t seed = (uint64_t)o.num("seed", 1);
    long runs = o.num("cases", 6);
    for (auto& d : docs())
        for (long i = 0; i < runs; ++i) { R.eval(); if (!runDoc(d, seed * 1000 + (uint64_t)i + hashStr(d.name))) break; }
    R.write(gOut);
    finishProcess();
}
