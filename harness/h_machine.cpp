// Differential + invariant monitor for the state machine engine.
// Runs random machines on a logical-clock dispatcher and compares every callback, result and query with
// the reference model; independently checks invariants over the observed callback stream.
#include "real.hpp"

using namespace vm;
using vh::Options;
using vh::Result;

static Result R;

static Profile profileFor(const std::string& name, Rng& r) {
    Profile p;
    if (name == "base") { p.cross = r.chance(25) ? 15 : 0; }
    else if (name == "seq") { p.sequential = true; p.cbMissing = 0; p.multi = 0; p.cond = 0; p.hist = r.chance(60) ? 50 : 0; p.finals = r.chance(40) ? 25 : 0; p.noEntry = 0; }
    else if (name == "conserve") { p.cbMissing = 0; p.hist = r.chance(50) ? 40 : 0; p.finals = r.chance(50) ? 20 : 0; p.refuse = 30; p.actions = 100; }
    else if (name == "refuse") { p.refuse = 70; p.cbMissing = 6; p.multi = 20; p.cross = r.chance(20) ? 10 : 0; p.nested = 70; }
    else if (name == "guards") { p.cond = 65; p.condEntry = 30; p.parallelEntry = 50; p.noEntry = 25; p.multi = 25; }
    else if (name == "history") { p.hist = 80; p.nested = 75; p.maxStates = 10; p.parallelEntry = 40; p.toParent = 8; p.finals = r.chance(30) ? 15 : 0; }
    else if (name == "finals") { p.finals = 45; p.nested = 75; p.parallelEntry = 45; }
    else if (name == "queue") { p.posts = 30; p.clear = 25; p.batch = 70; p.finals = 10; p.hist = r.chance(40) ? 40 : 0; }
    else if (name == "args") { p.richArgs = 95; p.finals = r.chance(40) ? 20 : 0; p.hist = r.chance(40) ? 40 : 0; p.batch = 40; p.cbMissing = 4; }
    else if (name == "actions") { p.actions = 700; p.refuse = 15; p.cbMissing = 10; p.hist = r.chance(20) ? 30 : 0; }
    else if (name == "sync") { p.hist = r.chance(40) ? 50 : 0; p.finals = r.chance(40) ? 25 : 0; p.refuse = r.chance(50) ? 35 : 0; p.posts = 10; p.batch = 0; p.nested = 65; p.multi = 20; }
    else if (name == "possible") { p.cond = 55; p.condEntry = 25; p.noEntry = 20; p.finals = 10; }
    else if (name == "flat") { p.nested = 0; p.multi = 0; p.cond = 35; p.maxStates = 6; p.batch = 0; }
    else if (name == "mix") { p.hist = r.chance(40) ? 40 : 0; p.finals = r.chance(40) ? 20 : 0; p.refuse = r.chance(50) ? 30 : 0; p.actions = r.chance(40) ? 200 : 0; p.posts = r.chance(40) ? 20 : 0; p.cross = r.chance(15) ? 10 : 0; p.maxStates = 12; }
    return p;
}

// model-free monitor: folds the callback stream into the set of states that must be active
struct Conservation {
    std::set<int> on;
    std::string err;
    void feed(const std::string& t, const Spec& sp) {
        if (t[0] == 'C') {
            int s = atoi(t.c_str() + 1);
            if (sp.pseudo(s)) return;
            if (!on.insert(s).second) err = "state " + std::to_string(s) + " announced active twice without leaving";
        } else if (t[0] == 'X') {
            int s = atoi(t.c_str() + 1);
            if (sp.pseudo(s)) return;
            if (t.find('!') == std::string::npos) { if (!on.erase(s)) err = "state " + std::to_string(s) + " left without having been entered"; }
            else if (!on.count(s)) err = "exit requested from inactive state " + std::to_string(s);
        }
    }
};

static std::string joinTrace(const std::vector<std::string>& t, size_t from, size_t maxn = 60) {
    std::string s;
    for (size_t i = from; i < t.size() && i < from + maxn; ++i) s += t[i] + " ";
    return s;
}

struct StepDesc { std::string text; };

static bool runCase(const std::string& prop, const std::string& prof, uint64_t seed, long idx, bool verbose) {
    Rng r(seed * 1000003ull + (uint64_t)idx);
    Profile p = profileFor(prof, r);
    Spec sp = genSpec(r, p);
    Model m(sp);
    Real x(sp);
    auto disp = std::make_shared<StepDispatcher>();
    x.disp = disp;
    x.build();
    disp->onTimer = [&](const std::string& s) { x.env.tok(s); };
    std::string history;
    Conservation cons;
    size_t seen = 0;
    const bool conserve = (p.cbMissing == 0 && p.cross == 0);
    auto fail = [&](const std::string& key, const std::string& msg) {
        std::ostringstream o;
        o << "profile=" << prof << " seed=" << seed << " case=" << idx << "\n" << sp.dump() << "history:\n" << history << "\n" << msg
          << "\nmodel trace: " << joinTrace(m.env.trace, 0, 200) << "\nreal trace:  " << joinTrace(x.env.trace, 0, 200) << "\n";
        R.violate(key, msg, o.str());
        if (verbose) std::cout << o.str();
        return false;
    };
    m.env.post = [&](int kind, int ev, const std::vector<Val>& v) { m.postRegular(ev, mkArgs(v), -1, kind == 2); };
    x.env.post = [&](int kind, int ev, const std::vector<Val>& v) {
        if (kind == 2) x.hsm->transitionWithQueueClear(sp.evId[ev], toVariant(v[0]), toVariant(v[1]));
        else if (v.size() == 2 && (v[0].i & 1)) x.hsm->transition(sp.evId[ev], toVariant(v[0]), toVariant(v[1]));
        else x.hsm->transitionWithArgsArray(sp.evId[ev], Real::vlist(v));
    };
    std::map<std::string, long> cov;
    int waiter = 0;
    long nontrivial = 0;
    auto drainModel = [&]() { long n = 0; while (m.step()) { if (++n > 400) return false; } return true; };
    auto compare = [&](const std::string& what) {
        if (m.unspecified) return 2;
        if (disp->overrun) { fail(what + ":overrun", "event processing did not terminate"); return 0; }
        size_t a = 0;
        auto& mt = m.env.trace; auto& xt = x.env.trace;
        while (a < mt.size() && a < xt.size() && mt[a] == xt[a]) ++a;
        if (a < mt.size() || a < xt.size()) {
            std::string e = a < mt.size() ? mt[a] : "<nothing>", g = a < xt.size() ? xt[a] : "<nothing>";
            std::string key = what + ":callback expected=" + (e == "<nothing>" ? e : e.substr(0, 1)) + " got=" + (g == "<nothing>" ? g : g.substr(0, 1));
            fail(key, "callback stream differs at position " + std::to_string(a) + ": expected " + e + " observed " + g);
            return 0;
        }
        auto act = x.active();
        if (act != m.active) { fail(what + ":active", "active states expected " + vh::joinInts(m.active) + " observed " + vh::joinInts(act)); return 0; }
        int last = m.active.empty() ? -1 : m.active.back();
        if (x.sidx(x.hsm->getLastActiveState()) != last) { fail(what + ":last-active", "getLastActiveState differs"); return 0; }
        for (size_t s = 0; s < sp.st.size(); ++s)
            if (x.hsm->isStateActive(sp.st[s].id) != m.isActive((int)s)) { fail(what + ":isStateActive", "isStateActive(" + std::to_string(s) + ") differs"); return 0; }
        // model-free invariants
        std::set<int> uniq(act.begin(), act.end());
        if (uniq.size() != act.size()) { fail("dup-active", "duplicate active states " + vh::joinInts(act)); return 0; }
        if (conserve) {
            for (; seen < xt.size(); ++seen) cons.feed(xt[seen], sp);
            std::set<int> real;
            for (int s : act) { if (sp.pseudo(s)) { fail("pseudo-active", "history pseudo state left active while idle"); return 0; } if (sp.st[s].registered) real.insert(s); }
            if (!cons.err.empty()) { fail("conservation", cons.err); return 0; }
            std::set<int> on = cons.on;
            if (on != real) { fail("conservation:set", "states announced by callbacks " + vh::joinInts(on) + " differ from reported " + vh::joinInts(real)); return 0; }
            cov["conservation_checks"]++;
        }
        if (p.sequential) {
            std::map<int, int> kids;
            for (int s : act) { kids[sp.st[s].parent]++; if (sp.st[s].parent >= 0 && !uniq.count(sp.st[s].parent)) { fail("orphan", "active state without active parent " + vh::joinInts(act)); return 0; } }
            for (auto& k : kids) if (k.second != 1) { fail("regions", "more than one active child in a sequential composite " + vh::joinInts(act)); return 0; }
            for (int s : act) if (sp.composite(s) && !kids.count(s)) { fail("childless", "composite state " + std::to_string(s) + " active without an active child " + vh::joinInts(act)); return 0; }
            cov["shape_checks"]++;
        }
        return 1;
    };

    // startup
    m.env.postBudget = x.env.postBudget = 4;
    bool pausedStart = r.chance(30);
    disp->paused = true;
    m.startup();
    if (!x.hsm->initialize(disp)) return fail("init", "initialize failed");
    if (sp.st.size() % 3 == 0) x.hsm->setInitialState(sp.st.back().id);   // without effect from now on
    if (pausedStart) {
        history += "  [initialize, paused]\n";
        if (r.chance(50) && prof != "seq") {   // queue an event before the first dispatch
            int ev = r.below((int)sp.evId.size());
            std::vector<Val> v(1); v[0].i = r.below(16);
            bool clear = r.chance(50);
            history += "  before first dispatch: " + std::string(clear ? "clear+" : "") + "event " + std::to_string(ev) + " mask=" + std::to_string(v[0].i) + "\n";
            m.postRegular(ev, mkArgs(v), -1, clear);
            if (clear) x.hsm->transitionWithQueueClear(sp.evId[ev], toVariant(v[0])); else x.hsm->transition(sp.evId[ev], toVariant(v[0]));
        }
    } else history += "  [initialize]\n";
    if (!drainModel()) { R.add("livelocked"); return true; }   // livelocked machine (final/post loops): not a useful case
    disp->paused = false;
    disp->pump();
    int c = compare("startup");
    if (c != 1) return c == 2;

    for (int step = 0; step < p.steps; ++step) {
        m.env.refuseEnter = m.env.refuseExit = 0;
        if (r.chance(p.refuse)) {
            for (size_t s = 0; s < sp.st.size(); ++s) {
                if (r.chance(22)) m.env.refuseEnter |= 1ull << s;
                if (r.chance(18)) m.env.refuseExit |= 1ull << s;
            }
        }
        x.env.refuseEnter = m.env.refuseEnter; x.env.refuseExit = m.env.refuseExit;
        m.env.postBudget = x.env.postBudget = 4;
        size_t before = m.env.trace.size();
        auto mk = [&]() {
            std::vector<Val> v;
            if (r.chance(96)) { Val g; g.i = r.below(16); v.push_back(g); }
            if (!v.empty() && r.chance(60)) { Val u; u.t = 's'; u.s = "u" + std::to_string(step); v.push_back(u); }
            if (!v.empty()) while (r.chance(p.richArgs) && v.size() < 6) v.push_back(randVal(r));
            return v;
        };
        // pick mostly events that some active state handles
        auto pickEv = [&]() {
            if (r.chance(70)) { std::vector<int> c2; for (auto& t : sp.tr) if (m.isActive(t.from)) c2.push_back(t.event); if (!c2.empty()) return c2[r.below((int)c2.size())]; }
            return r.below((int)sp.evId.size());
        };
        if (r.chance(15) || prof == "possible") {
            int ev = pickEv();
            auto v = mk();
            bool want = m.possible(ev, mkArgs(v));
            bool got = v.size() == 0 ? x.hsm->isTransitionPossible(sp.evId[ev])
                     : v.size() == 1 ? x.hsm->isTransitionPossible(sp.evId[ev], toVariant(v[0]))
                     : x.hsm->isTransitionPossible(sp.evId[ev], toVariant(v[0]), toVariant(v[1]));
            bool skipCross = p.cross > 0;   // orphaned substates: parents are consulted although inactive
            if (!skipCross && want != got) {
                history += "  possible(" + std::to_string(ev) + ", mask=" + std::to_string(v.empty() ? -1 : v[0].i) + ")\n";
                return fail("possible", std::string("isTransitionPossible expected ") + (want ? "true" : "false") + " observed " + (got ? "true" : "false")), false;
            }
            cov[want ? "possible_true" : "possible_false"]++;
        }
        if (prof == "flat" && m.active.size() == 1 && r.chance(60)) {
            // pending events which are all going to be accepted, then a query which has to take them into account
            int cur = m.active.back();
            disp->paused = true;
            int k = r.range(1, 4), queued = 0;
            for (int j = 0; j < k; ++j) {
                int ev = pickEv();
                for (int tries = 0; tries < 4; ++tries) { auto c2 = m.matching(cur, ev, Args()); if (!c2.empty()) break; ev = r.below((int)sp.evId.size()); }
                auto v = mk();
                auto c2 = m.matching(cur, ev, mkArgs(v));
                if (c2.size() != 1) continue;
                cur = c2[0].to;
                ++queued;
                history += "  pending event " + std::to_string(ev) + " mask=" + std::to_string(v.empty() ? -1 : v[0].i) + "\n";
                m.postRegular(ev, mkArgs(v), -1, false);
                x.hsm->transitionWithArgsArray(sp.evId[ev], Real::vlist(v));
            }
            for (int j = 0; j < 3; ++j) {
                int ev = r.below((int)sp.evId.size());
                auto v = mk();
                bool want = !m.matching(cur, ev, mkArgs(v)).empty();
                bool got = v.size() == 0 ? x.hsm->isTransitionPossible(sp.evId[ev])
                         : v.size() == 1 ? x.hsm->isTransitionPossible(sp.evId[ev], toVariant(v[0]))
                         : x.hsm->isTransitionPossible(sp.evId[ev], toVariant(v[0]), toVariant(v[1]));
                if (want != got) return fail("possible-pending", "with " + std::to_string(queued) + " pending events isTransitionPossible(" + std::to_string(ev) + ") expected " + (want ? "true" : "false"));
                cov[queued ? (want ? "possible_pending_true" : "possible_pending_false") : "possible_flat"]++;
            }
            if (!drainModel()) { R.add("livelocked"); return true; }
            disp->paused = false;
            disp->pump();
        } else if (r.chance(p.batch)) {
            int k = r.range(2, 5);
            disp->paused = true;
            for (int j = 0; j < k; ++j) {
                int ev = pickEv();
                auto v = mk();
                bool clear = r.chance(p.clear);
                int how = r.below(5);
                if (how == 4) { v.clear(); clear = false; }
                history += "  batch event " + std::to_string(ev) + (clear ? " CLEAR" : "") + (how == 4 ? " interrupt-safe" : "") + " mask=" + std::to_string(v.empty() ? -1 : v[0].i) + "\n";
                if (how == 4) {   // delivered by the dispatcher's enqueued path, which runs first
                    disp->paused = true;
                    if (!x.hsm->transitionInterruptSafe(sp.evId[ev])) return fail("interrupt-refused", "transitionInterruptSafe refused");
                    // forward now so that the order is the same on both sides
                    disp->stepOne();
                    m.postRegular(ev, Args(), -1, false);
                    continue;
                }
                m.postRegular(ev, mkArgs(v), -1, clear);
                bool ret = true;
                if (clear) ret = x.hsm->transitionExWithArgsArray(sp.evId[ev], true, false, 0, Real::vlist(v));
                else if (how == 0) x.hsm->transitionWithArgsArray(sp.evId[ev], Real::vlist(v));
                else if (v.size() == 1) x.hsm->transition(sp.evId[ev], toVariant(v[0]));
                else if (v.size() == 2) ret = x.hsm->transitionEx(sp.evId[ev], false, false, 0, toVariant(v[0]), toVariant(v[1]));
                else ret = x.hsm->transitionExWithArgsArray(sp.evId[ev], false, false, 0, Real::vlist(v));
                if (!ret) return fail("async-return", "asynchronous transition returned false");
            }
            if (!drainModel()) { R.add("livelocked"); return true; }
            disp->paused = false;
            disp->pump();
            cov["batches"]++;
        } else {
            int ev = pickEv();
            auto v = mk();
            bool sync = r.chance(60);
            bool clear = !sync && r.chance(p.clear);
            history += "  event " + std::to_string(ev) + (sync ? " sync" : "") + (clear ? " CLEAR" : "") + " mask=" + std::to_string(v.empty() ? -1 : v[0].i) + " refE=" + std::to_string(m.env.refuseEnter) + " refX=" + std::to_string(m.env.refuseExit) + "\n";
            int w = sync ? ++waiter : -1;
            m.postRegular(ev, mkArgs(v), w, clear);
            if (!drainModel()) { R.add("livelocked"); return true; }
            if (m.unspecified) { cov["unspecified"]++; break; }
            if (sync) {
                bool got;
                const int to = 300;
                if (r.chance(30)) got = x.hsm->transitionExWithArgsArray(sp.evId[ev], false, true, to, Real::vlist(v));
                else if (v.empty()) got = x.hsm->transitionSync(sp.evId[ev], to);
                else if (v.size() == 1) got = x.hsm->transitionSync(sp.evId[ev], to, toVariant(v[0]));
                else if (v.size() == 2) got = x.hsm->transitionSync(sp.evId[ev], to, toVariant(v[0]), toVariant(v[1]));
                else got = x.hsm->transitionExWithArgsArray(sp.evId[ev], false, true, to, Real::vlist(v));
                auto it = m.waiterStatus.find(w);
                bool want = it != m.waiterStatus.end() && it->second == 1;
                if (got != want) return fail("sync-status", std::string("synchronous transition returned ") + (got ? "true" : "false") + " expected " + (want ? "true" : "false"));
                cov[want ? "sync_true" : "sync_false"]++;
            } else if (clear) x.hsm->transitionExWithArgsArray(sp.evId[ev], true, false, 0, Real::vlist(v));
            else x.hsm->transitionWithArgsArray(sp.evId[ev], Real::vlist(v));
        }
        c = compare("step");
        if (c == 2) { cov["unspecified"]++; break; }
        if (c == 0) return false;
        if (m.env.trace.size() > before + 1) ++nontrivial;
        cov["steps"]++;
        cov["callbacks"] += (long)(m.env.trace.size() - before);
    }
    x.hsm->release();
    for (auto& k : m.cov) R.add("seen." + k.first, k.second);
    for (auto& k : cov) R.add(k.first, k.second);
    if (nontrivial > 3) {
        std::string all;
        for (auto& t : m.env.trace) all += t + " ";
        R.note(vh::hashStr(sp.dump() + all));
        if (idx % 977 == 3 || R.samples.empty()) R.sample("case " + std::to_string(idx) + " (" + prof + "): " + sp.dump() + history.substr(0, 600) + "\ntrace: " + joinTrace(m.env.trace, 0, 40));
    }
    return true;
}

int main(int argc, char** argv) {
    Options o(argc, argv);
    std::string out = o.str("out", "/dev/null");
    std::string profs = o.str("profile", "base");
    std::string prop = o.str("prop", "C02");
    uint64_t seed = (uint64_t)o.num("seed", 1);
    long cases = o.num("cases", 1000), only = o.num("only", -1), from = o.num("from", 0);
    std::vector<std::string> pl;
    std::stringstream ss(profs);
    for (std::string t; std::getline(ss, t, ',');) pl.push_back(t);
    vh::CaseGuard guard(R, out);
    for (long i = from; i < from + cases; ++i) {
        if (only >= 0 && i != only) continue;
        R.eval();
        runCase(prop, pl[i % pl.size()], seed, i, only >= 0);
        if (R.nviol() >= 10) break;
    }
    R.write(out);
    return 0;
}
