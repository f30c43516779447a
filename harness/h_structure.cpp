// C26: random sequences of registration calls, valid or not, in any order. Each result is compared with a model of the
// hierarchy, and the machine which comes out of it with the reference model of the accepted structure.
#include "real.hpp"

using namespace vm;
using vh::Options;
using vh::Result;
using vh::Rng;

static Result R;

struct Reg { int parent, sub; bool entry; int onEvent; Cond c; bool want; const char* why; };

static bool runCase(uint64_t seed, long idx, bool verbose) {
    Rng r(seed * 1000003ull + (uint64_t)idx);
    Spec sp;
    int n = r.range(2, r.chance(20) ? 24 : 10);
    std::set<int> used;
    auto freshId = [&]() { int v; do { v = r.chance(70) ? r.below(60) : (int)(r.next() & 0x7fffffff) * (r.chance(40) ? -1 : 1); } while (v == INVALID_ID || !used.insert(v).second); return v; };
    for (int i = 0; i < n; ++i) {
        StateSpec s;
        s.id = freshId();
        s.cbEnter = s.cbExit = s.cbChanged = true;
        s.registered = !r.chance(5);
        sp.st.push_back(s);
    }
    int nev = r.range(2, 4);
    std::set<int> usedE;
    for (int i = 0; i < nev; ++i) { int v; do { v = r.below(40); } while (!usedE.insert(v).second); sp.evId.push_back(v); }
    // registrations of the hierarchy
    std::vector<Reg> regs;
    int calls = r.range(n, 4 * n);
    std::vector<int> chain;      // preference for deep chains: the last accepted substate becomes a parent
    for (int k = 0; k < calls; ++k) {
        Reg g{r.below(n), r.below(n), r.chance(45), NOEVENT, Cond(), false, ""};
        if (r.chance(35) && !chain.empty()) g.parent = chain.back();
        if (r.chance(25) && !regs.empty()) {                 // related to an earlier call
            const Reg& o = regs[r.below((int)regs.size())];
            switch (r.below(4)) {
                case 0: g.parent = o.parent; g.sub = o.sub; break;          // again
                case 1: g.parent = o.sub; g.sub = o.parent; break;          // inverse
                case 2: g.sub = o.sub; break;                               // second parent
                default: { int top = o.parent; while (sp.st[top].parent >= 0) top = sp.st[top].parent; g.parent = o.sub; g.sub = top; }   // cycle through all levels
            }
        }
        if (g.entry && r.chance(30)) g.onEvent = r.below(nev);
        if (g.entry && r.chance(25)) { g.c.bit = r.below(4); g.c.expected = r.chance(60); }
        int cur = sp.st[g.sub].parent;
        if (g.parent == g.sub) g.why = "own parent";
        else if (cur >= 0 && cur != g.parent) g.why = "second parent";
        else if (sp.within(g.sub, g.parent)) g.why = "cycle";
        else {
            g.want = true;
            g.why = cur == g.parent ? "again" : "new";
            sp.st[g.sub].parent = g.parent;
            if (g.entry) sp.entry.push_back({g.parent, g.sub, g.onEvent, g.c});
            chain.push_back(g.sub);
        }
        R.add(std::string(g.want ? "accepted." : "refused.") + g.why);
        regs.push_back(g);
    }
    sp.initial = r.below(n);
    // a history state per some composites
    for (int i = 0; i < n; ++i) {
        if (!sp.composite(i) || !r.chance(20)) continue;
        StateSpec h;
        h.id = freshId();
        h.history = r.range(1, 2);
        h.histParent = i;
        auto ch = sp.children(i);
        if (r.chance(50)) h.histDefault = ch[r.below((int)ch.size())];
        h.histCb = r.chance(60);
        h.registered = r.chance(40);
        h.cbExit = false;
        sp.st.push_back(h);
    }
    int total = (int)sp.st.size();
    std::set<std::pair<int, int>> se;
    for (int k = 0; k < 4 * n; ++k) {
        TransSpec t;
        t.from = r.below(n);
        t.event = r.below(nev);
        std::vector<int> sib;
        for (int i = 0; i < n; ++i) if (i != t.from && sp.st[i].parent == sp.st[t.from].parent) sib.push_back(i);
        bool multi = !se.insert({t.from, t.event}).second;
        if (multi && !r.chance(25)) continue;
        if (r.chance(10) && !multi) { t.self = true; t.to = t.from; t.internal = r.chance(50); }
        else {
            std::vector<int> hs;
            for (int h = n; h < total; ++h) if (std::find(sib.begin(), sib.end(), sp.st[h].histParent) != sib.end()) hs.push_back(h);
            if (!hs.empty() && !multi && r.chance(50)) t.to = hs[r.below((int)hs.size())];
            else if (sib.empty()) continue;
            else t.to = sib[r.below((int)sib.size())];
        }
        if (multi) { bool clash = false; for (auto& o : sp.tr) if (o.from == t.from && o.event == t.event && (sp.st[o.to].history || o.self)) clash = true; if (clash) continue; }
        if (r.chance(15)) { t.c.bit = r.below(4); t.c.expected = r.chance(60); }
        sp.tr.push_back(t);
    }
    // all calls; calls of one class keep their order, everything else is shuffled
    Real x(sp);
    std::string calls2;
    std::string err;
    struct Call { int cls; std::function<void()> f; };
    std::vector<std::vector<std::function<void()>>> seqs;
    auto seq = [&]() -> std::vector<std::function<void()>>& { seqs.emplace_back(); return seqs.back(); };
    x.hsm.reset(new HierarchicalStateMachine(x.sid(sp.initial)));
    auto* h = x.hsm.get();
    {
        auto& q = seq();
        for (auto& g : regs)
            q.push_back([&, g]() {
                bool got = g.entry ? h->registerSubstateEntryPoint(x.sid(g.parent), x.sid(g.sub), x.ev(g.onEvent), x.condFn(g.c), g.c.expected) : h->registerSubstate(x.sid(g.parent), x.sid(g.sub));
                calls2 += std::string("  ") + (g.entry ? "entry " : "substate ") + std::to_string(g.parent) + " <- " + std::to_string(g.sub) + (g.entry && g.onEvent != NOEVENT ? " on " + std::to_string(g.onEvent) : "") + (got ? " accepted" : " refused") + " (" + g.why + ")\n";
                if (got != g.want && err.empty()) err = std::string(g.want ? "a valid registration is refused: " : "an invalid registration is accepted: ") + g.why;
            });
    }
    for (int i = 0; i < total; ++i) {
        auto& s = sp.st[i];
        if (s.registered) {
            auto& q = seq();
            if (r.chance(15)) q.push_back([&, i]() { h->registerState(sp.st[i].id, [&x](const VariantVector_t&) { x.env.tok("replaced callback"); }); });
            q.push_back([&, i]() {
                auto& s2 = sp.st[i];
                HsmStateExitCallback_t ex;
                if (s2.cbExit) ex = [&x, i]() { return x.env.exit(i); };
                h->registerState(s2.id, [&x, i](const VariantVector_t& a) { x.env.changed(i, fromVariants(a)); }, [&x, i](const VariantVector_t& a) { return x.env.enter(i, fromVariants(a)); }, ex);
            });
        }
        if (s.history) {
            seq().push_back([&, i]() {
                auto& s2 = sp.st[i];
                HsmTransitionCallback_t cb;
                if (s2.histCb) cb = [&x, i](const VariantVector_t& a) { x.env.hist(i, fromVariants(a)); };
                h->registerHistory(x.sid(s2.histParent), s2.id, s2.history == 1 ? HistoryType::SHALLOW : HistoryType::DEEP, x.sid(s2.histDefault), cb);
            });
        }
    }
    std::map<std::pair<int, int>, size_t> trSeq;
    for (size_t k = 0; k < sp.tr.size(); ++k) {
        auto& t = sp.tr[k];
        auto key = std::make_pair(t.from, t.event);
        if (!trSeq.count(key)) { seq(); trSeq[key] = seqs.size() - 1; }
        seqs[trSeq[key]].push_back([&, k]() {
            auto& t2 = sp.tr[k];
            HsmTransitionCallback_t cb = [&x, k](const VariantVector_t& a) { x.env.trans((int)k, fromVariants(a)); };
            if (t2.self) h->registerSelfTransition(x.sid(t2.from), x.ev(t2.event), t2.internal ? TransitionType::INTERNAL_TRANSITION : TransitionType::EXTERNAL_TRANSITION, cb, x.condFn(t2.c), t2.c.expected);
            else h->registerTransition(x.sid(t2.from), x.sid(t2.to), x.ev(t2.event), cb, x.condFn(t2.c), t2.c.expected);
        });
    }
    seq().push_back([&]() { h->registerFailedTransitionCallback([&x](const std::list<StateID_t>& a, const EventID_t e, const VariantVector_t& v) { x.onFailed(a, e, v); }); });
    std::vector<size_t> order;
    for (size_t i = 0; i < seqs.size(); ++i) for (size_t k = 0; k < seqs[i].size(); ++k) order.push_back(i);
    for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below((int)i)]);
    std::vector<size_t> at(seqs.size(), 0);
    std::string history;
    Model m(sp);
    auto disp = std::make_shared<StepDispatcher>();
    auto fail = [&](const std::string& k, const std::string& msg) {
        std::string mt, xt;
        for (auto& t : m.env.trace) mt += t + " ";
        for (auto& t : x.env.trace) xt += t + " ";
        std::string d = "seed=" + std::to_string(seed) + " case=" + std::to_string(idx) + "\ncalls:\n" + calls2 + sp.dump() + history + "\nexpected: " + mt.substr(0, 3000) + "\nobserved: " + xt.substr(0, 3000);
        R.violate("structure:" + k, msg, d);
        if (verbose) std::cout << d << "\n";
        return false;
    };
    for (size_t i : order) { seqs[i][at[i]++](); R.add("registrations"); }
    if (!err.empty()) return fail("result", err);
    auto drain = [&]() { long k = 0; while (m.step()) if (++k > 600) return false; return true; };
    auto compare = [&]() {
        if (m.unspecified) return 2;
        if (disp->overrun) { fail("termination", "processing of an event does not terminate"); return 0; }
        auto &a = m.env.trace, &b = x.env.trace;
        for (size_t i = 0; i < std::max(a.size(), b.size()); ++i) {
            std::string e = i < a.size() ? a[i] : "<nothing>", g = i < b.size() ? b[i] : "<nothing>";
            if (e != g) { fail("behaviour", "expected " + e + " observed " + g); return 0; }
        }
        if (x.active() != m.active) { fail("active", "active states expected " + vh::joinInts(m.active) + " observed " + vh::joinInts(x.active())); return 0; }
        for (size_t s = 0; s < sp.st.size(); ++s) if (x.hsm->isStateActive(sp.st[s].id) != m.isActive((int)s)) { fail("active", "isStateActive(" + std::to_string(s) + ")"); return 0; }
        return 1;
    };
    disp->paused = true;
    x.disp = disp;
    m.startup();
    if (!h->initialize(disp)) return fail("init", "initialize failed");
    if (!drain()) { R.add("livelocked"); return true; }
    disp->paused = false;
    disp->pump();
    int c = compare();
    for (int s = 0; s < 30 && c == 1; ++s) {
        int ev = r.below(nev);
        if (r.chance(75)) { std::vector<int> c2; for (auto& t : sp.tr) if (m.isActive(t.from)) c2.push_back(t.event); if (!c2.empty()) ev = c2[r.below((int)c2.size())]; }
        std::vector<Val> v(1);
        v[0].i = r.below(16);
        history += "  event " + std::to_string(ev) + " mask=" + std::to_string(v[0].i) + "\n";
        m.postRegular(ev, mkArgs(v), -1, false);
        if (!drain()) { R.add("livelocked"); return true; }
        x.hsm->transitionWithArgsArray(sp.evId[ev], Real::vlist(v));
        c = compare();
        R.add("steps");
    }
    if (c == 0) return false;
    R.add("callbacks", (long)x.env.trace.size());
    int depth = 0;
    for (int i = 0; i < n; ++i) { int d = 0; for (int p = sp.st[i].parent; p >= 0; p = sp.st[p].parent) ++d; depth = std::max(depth, d); }
    R.maxOf("max.depth", depth);
    if (depth >= 3) R.add("deep");
    std::string all;
    for (auto& t : x.env.trace) all += t;
    if (x.env.trace.size() > 8) R.note(vh::hashStr(calls2 + all));
    R.sample("case " + std::to_string(idx) + "\n" + calls2.substr(0, 700));
    x.hsm->release();
    return true;
}

int main(int argc, char** argv) {
    Options o(argc, argv);
    std::string out = o.str("out", "/dev/null");
    uint64_t seed = (uint64_t)o.num("seed", 1);
    long cases = o.num("cases", 1000), only = o.num("only", -1);
    vh::CaseGuard guard(R, out);
    for (long i = 0; i < cases; ++i) {
        if (only >= 0 && i != only) continue;
        R.eval();
        runCase(seed, i, only >= 0);
        if (R.nviol() >= 10) break;
    }
    R.write(out);
    return 0;
}
