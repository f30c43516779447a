// Random state machine specifications, an executable reference model of the documented semantics,
// and a builder that turns a specification into a real hsmcpp::HierarchicalStateMachine.
// The model never looks at hsmcpp internals: it is compared with the library only through callbacks,
// return values and public queries.
#pragma once
#include <algorithm>
#include <deque>
#include <list>
#include <memory>

#include "common.hpp"
#include "hsmcpp/IHsmEventDispatcher.hpp"
#include "hsmcpp/hsm.hpp"

namespace vm {
using namespace hsmcpp;
using vh::Rng;

constexpr int NOEVENT = -1;

// ---------------------------------------------------------------- values
struct Val {
    char t = 'i';   // i,s,b,d,y(byte array),v(list)
    int64_t i = 0;
    double d = 0;
    std::string s;
    std::vector<Val> v;
};
inline std::string fpVal(const Val& a) {
    std::ostringstream o;
    switch (a.t) {
        case 'i': o << "i" << a.i; break;
        case 's': o << "s'" << a.s << "'"; break;
        case 'b': o << (a.i ? "b1" : "b0"); break;
        case 'd': o << "d" << a.d; break;
        case 'y': o << "y'" << a.s << "'"; break;
        case 'v': { o << "v["; for (auto& e : a.v) o << fpVal(e) << ";"; o << "]"; break; }
    }
    return o.str();
}
inline Variant toVariant(const Val& a) {
    switch (a.t) {
        case 'i': return Variant(a.i);
        case 's': return Variant(a.s);
        case 'b': return Variant(a.i != 0);
        case 'd': return Variant(a.d);
        case 'y': return Variant(ByteArray_t(a.s.begin(), a.s.end()));
        default: { VariantVector_t l; for (auto& e : a.v) l.push_back(toVariant(e)); return Variant(l); }
    }
}
inline std::string fpVariant(const Variant& v) {
    std::ostringstream o;
    switch (v.getType()) {
        case Variant::Type::BYTE_1: case Variant::Type::BYTE_2: case Variant::Type::BYTE_4: case Variant::Type::BYTE_8:
            o << "i" << v.toInt64(); break;
        case Variant::Type::UBYTE_1: case Variant::Type::UBYTE_2: case Variant::Type::UBYTE_4: case Variant::Type::UBYTE_8:
            o << "u" << v.toUInt64(); break;
        case Variant::Type::STRING: o << "s'" << v.toString() << "'"; break;
        case Variant::Type::BOOL: o << (v.toBool() ? "b1" : "b0"); break;
        case Variant::Type::DOUBLE: o << "d" << v.toDouble(); break;
        case Variant::Type::BYTEARRAY: { auto b = v.toByteArray(); o << "y'" << std::string(b.begin(), b.end()) << "'"; break; }
        case Variant::Type::VECTOR: { o << "v["; auto p = v.getVector(); if (p) for (auto& e : *p) o << fpVariant(e) << ";"; o << "]"; break; }
        default: o << "?" << static_cast<int>(v.getType());
    }
    return o.str();
}

struct Args {             // what the model keeps: guard mask + fingerprint
    int64_t mask = 0;
    std::string fp;       // fingerprint of the whole list
};
inline Args mkArgs(const std::vector<Val>& v) {
    Args a;
    if (!v.empty() && v[0].t == 'i') a.mask = v[0].i;
    for (auto& e : v) a.fp += fpVal(e) + ",";
    return a;
}
inline Args fromVariants(const VariantVector_t& v) {
    Args a;
    if (!v.empty() && v[0].isNumeric()) a.mask = v[0].toInt64();
    for (auto& e : v) a.fp += fpVariant(e) + ",";
    return a;
}

// ---------------------------------------------------------------- specification
struct Cond { int bit = -1; bool expected = true; };
struct StateSpec {
    int id = 0;           // real id
    int parent = -1;
    bool registered = true, cbEnter = true, cbExit = true, cbChanged = true;
    bool objStyle = false;
    bool isFinal = false; int finalEvent = NOEVENT;
    int history = 0;      // 0 none, 1 shallow, 2 deep
    int histParent = -1, histDefault = -1; bool histCb = false;
    int postEvent = NOEVENT; int postKind = 0;  // posted from the state-changed callback: 0 none 1 transition 2 queue clear
    int64_t postMask = 0;
};
struct EntrySpec { int parent, state; int onEvent = NOEVENT; Cond c; };
struct TransSpec { int from, to, event; bool self = false, internal = false, cb = true; Cond c; bool objStyle = false; };
struct ActionSpec { int state; bool onEntry; int kind; /*0 start 1 stop 2 restart 3 transition*/ int a; int64_t b; bool c; std::vector<Val> args; };
struct Spec {
    std::vector<StateSpec> st;
    std::vector<EntrySpec> entry;
    std::vector<TransSpec> tr;
    std::vector<ActionSpec> act;
    std::vector<int> evId;
    int initial = 0;
    bool failedCb = true;
    bool sequential = false;   // one region per composite, unconditional entry points, no refusals
    std::vector<int> regOrder; // registration order of substates
    bool pseudo(int s) const { return st[s].history != 0; }
    bool composite(int s) const { for (size_t i = 0; i < st.size(); ++i) if (st[i].parent == s) return true; return false; }
    std::vector<int> children(int s) const { std::vector<int> r; for (size_t i = 0; i < st.size(); ++i) if (st[i].parent == s) r.push_back((int)i); return r; }
    bool within(int anc, int s) const { for (int p = st[s].parent; p >= 0; p = st[p].parent) if (p == anc) return true; return false; }
    std::string dump() const {
        std::ostringstream o;
        o << "initial=" << initial << (sequential ? " sequential" : "") << "\n";
        for (size_t i = 0; i < st.size(); ++i) {
            auto& s = st[i];
            o << "  state " << i << " id=" << s.id << " parent=" << s.parent << " cb=" << (s.cbEnter ? "E" : "") << (s.cbExit ? "X" : "") << (s.cbChanged ? "C" : "");
            if (s.isFinal) o << " FINAL(ev=" << s.finalEvent << ")";
            if (s.history) o << " HISTORY(" << (s.history == 1 ? "shallow" : "deep") << " of " << s.histParent << " default=" << s.histDefault << (s.histCb ? " cb" : "") << ")";
            if (s.postKind) o << " posts(kind=" << s.postKind << " ev=" << s.postEvent << " mask=" << s.postMask << ")";
            o << "\n";
        }
        for (auto& e : entry) o << "  entry " << e.parent << "->" << e.state << " onEvent=" << e.onEvent << " cond=" << e.c.bit << "/" << e.c.expected << "\n";
        for (auto& t : tr) o << "  trans " << t.from << "->" << t.to << " ev=" << t.event << (t.self ? (t.internal ? " self-int" : " self-ext") : "") << " cond=" << t.c.bit << "/" << t.c.expected << (t.cb ? " cb" : "") << "\n";
        for (auto& a : act) o << "  action state=" << a.state << (a.onEntry ? " entry" : " exit") << " kind=" << a.kind << " a=" << a.a << " b=" << a.b << " c=" << a.c << "\n";
        return o.str();
    }
};

// ---------------------------------------------------------------- environment shared by callbacks of both sides
struct Env {
    std::vector<std::string> trace;
    uint64_t refuseEnter = 0, refuseExit = 0;
    int postBudget = 0;
    int postSerial = 0;
    const Spec* spec = nullptr;
    std::function<void(int kind, int ev, const std::vector<Val>&)> post;
    std::function<void()> onTok;
    void tok(const std::string& s) { trace.push_back(s); if (onTok) onTok(); }
    bool enter(int s, const Args& a) { bool r = !((refuseEnter >> s) & 1); tok("E" + std::to_string(s) + (r ? "" : "!") + "(" + a.fp + ")"); return r; }
    bool exit(int s) { bool r = !((refuseExit >> s) & 1); tok("X" + std::to_string(s) + (r ? "" : "!")); return r; }
    void changed(int s, const Args& a) {
        tok("C" + std::to_string(s) + "(" + a.fp + ")");
        auto& ss = spec->st[s];
        if (ss.postKind && postBudget > 0) {
            --postBudget;
            std::vector<Val> v(2);
            v[0].i = ss.postMask;
            v[1].t = 's';
            v[1].s = "p" + std::to_string(postSerial++);
            tok("P" + std::to_string(ss.postKind) + ":" + std::to_string(ss.postEvent));
            post(ss.postKind, ss.postEvent, v);
        }
    }
    void trans(int t, const Args& a) { tok("T" + std::to_string(t) + "(" + a.fp + ")"); }
    void hist(int h, const Args& a) { tok("H" + std::to_string(h) + "(" + a.fp + ")"); }
    static bool cond(const Cond& c, const Args& a) { return ((a.mask >> c.bit) & 1) != 0; }
    void failed(const std::vector<int>& active, int ev, const Args& a) { tok("F" + vh::joinInts(active) + "ev" + std::to_string(ev) + "(" + a.fp + ")"); }
};

// ---------------------------------------------------------------- reference model
struct Model {
    enum R { FAILED, OK, PENDING, CANCELED };
    struct Forced { int from, to; int histCb; };
    struct Ev { int argOrigin = 0; int kind = 0; /*0 regular 1 entry 2 forced*/ int id = NOEVENT; Args args; int waiter = -1; std::vector<Forced> forced; bool ign = false; int origin = 0; };
    struct T { int from, to; bool internal; int cb; /*index or -1*/ int histCb; };

    const Spec& sp;
    Env env;
    std::vector<int> active;
    std::deque<Ev> q;
    std::map<int, std::vector<int>> hist;   // history state -> stored
    std::map<int, int> waiterStatus;        // waiter -> first final status
    bool unspecified = false;
    int nextOrigin = 1;
    // coverage
    std::map<std::string, long> cov;

    explicit Model(const Spec& s) : sp(s) { env.spec = &sp; }

    bool isActive(int s) const { return std::find(active.begin(), active.end(), s) != active.end(); }
    void remove(int s) { active.erase(std::remove(active.begin(), active.end(), s), active.end()); }
    bool add(int s) { if (isActive(s)) return false; active.push_back(s); return true; }
    bool childActive(int p) const { for (int a : active) if (sp.st[a].parent == p) return true; return false; }
    bool descActive(int p) const { for (int a : active) if (sp.within(p, a)) return true; return false; }

    bool callEnter(int s, const Args& a) {
        if (isActive(s)) return true;
        bool r = true;
        if (sp.st[s].registered && sp.st[s].cbEnter) r = env.enter(s, a);
        if (r) actions(s, true);
        return r;
    }
    bool callExit(int s) {
        bool r = true;
        if (sp.st[s].registered && sp.st[s].cbExit) r = env.exit(s);
        if (r) actions(s, false);
        return r;
    }
    void callChanged(int s, const Args& a) { if (sp.st[s].registered && sp.st[s].cbChanged) env.changed(s, a); }
    void actions(int s, bool entry) {
        for (auto& ac : sp.act) {
            if (ac.state != s || ac.onEntry != entry) continue;
            cov["actions"]++;
            if (ac.kind == 0) env.tok("TS" + std::to_string(ac.a) + "," + std::to_string(ac.b) + "," + std::to_string(ac.c));
            else if (ac.kind == 1) env.tok("TP" + std::to_string(ac.a));
            else if (ac.kind == 2) env.tok("TR" + std::to_string(ac.a));
            else postRegular(ac.a, mkArgs(ac.args), -1, false);
        }
    }
    std::vector<int> entryPoints(int s, int ev, const Args& a) const {
        std::vector<int> r;
        for (auto& e : sp.entry)
            if (e.parent == s && (e.onEvent == NOEVENT || e.onEvent == ev) && (e.c.bit < 0 || Env::cond(e.c, a) == e.c.expected) && std::find(r.begin(), r.end(), e.state) == r.end()) r.push_back(e.state);
        return r;
    }
    bool enterable(int dest, int ev, const Args& a) const {
        std::deque<int> todo{dest};
        while (!todo.empty()) {
            int s = todo.front();
            todo.pop_front();
            if (!sp.composite(s)) return true;
            auto eps = entryPoints(s, ev, a);
            if (eps.empty()) return false;
            for (int e : eps) todo.push_back(e);
        }
        return false;
    }
    std::vector<T> matching(int s, int ev, const Args& a) const {
        std::vector<T> r;
        for (size_t i = 0; i < sp.tr.size(); ++i) {
            auto& t = sp.tr[i];
            if (t.from != s || t.event != ev) continue;
            if (t.c.bit >= 0 && Env::cond(t.c, a) != t.c.expected) continue;
            if (!enterable(t.to, ev, a)) continue;
            r.push_back({t.from, t.to, t.self && t.internal, t.cb ? (int)i : -1, -1});
        }
        return r;
    }
    bool possible(int ev, const Args& a) const { for (int s : active) if (!matching(s, ev, a).empty()) return true; return false; }

    void postRegular(int ev, const Args& a, int waiter, bool clear) {
        if (clear) {
            std::deque<Ev> keep;
            for (auto& e : q) {
                if (e.kind == 0) { setStatus(e.waiter, FAILED, e.origin); cov["cleared"]++; }
                else { keep.push_back(e); cov["kept_chain_on_clear"]++; }
            }
            q.swap(keep);
        }
        Ev e;
        e.id = ev; e.args = a; e.waiter = waiter; e.origin = e.argOrigin = nextOrigin++;
        q.push_back(e);
    }
    std::map<int, int> chainStatus;
    void setStatus(int waiter, R r, int origin) {
        if (r == PENDING) return;
        int fin = (r == OK);
        auto c = chainStatus.find(origin);
        if (c == chainStatus.end()) chainStatus[origin] = fin;
        else if (c->second != fin && waiter >= 0) unspecified = true;   // chain reported two different outcomes
        if (waiter >= 0 && !waiterStatus.count(waiter)) waiterStatus[waiter] = fin;
    }

    void startup() {
        (void)callEnter(sp.initial, Args());
        active.push_back(sp.initial);
        callChanged(sp.initial, Args());
        if (!entryPoints(sp.initial, NOEVENT, Args()).empty()) {
            Ev e; e.kind = 1; e.origin = nextOrigin++;
            q.push_front(e);
        }
    }
    bool step() {
        if (q.empty()) return false;
        Ev e = q.front();
        q.pop_front();
        R r = process(e);
        setStatus(e.waiter, r, e.origin);
        return true;
    }
    R process(const Ev& e) {
        auto snapshot = active;
        std::vector<int> accepted;
        R res = FAILED;
        for (auto it = snapshot.rbegin(); it != snapshot.rend(); ++it) {
            if (!isActive(*it)) continue;
            bool skip = false;
            for (int a : accepted) if (sp.within(*it, a)) skip = true;
            if (skip) { cov["parent_shadowed_by_child"]++; continue; }
            R r = single(*it, e);
            if (r == PENDING) { res = PENDING; accepted.push_back(*it); }
            else if (r == OK) { if (res != PENDING) res = OK; accepted.push_back(*it); }
        }
        if (accepted.size() > 1) cov["parallel_accept"]++;
        if (res == FAILED) {
            cov["failed_events"]++;
            if (sp.failedCb) env.failed(snapshot, e.id, e.args);
        }
        return res;
    }
    R single(int from, const Ev& e) {
        std::vector<T> m;
        if (e.kind == 0) {
            m = matching(from, e.id, e.args);
        } else if (e.kind == 1) {
            if (childActive(from)) return FAILED;
            for (int s : entryPoints(from, e.id, e.args)) m.push_back({from, s, false, -1, -1});
        } else {
            int h = e.forced[0].from;
            if (from != h && (isActive(h) || from != sp.st[h].histParent)) return FAILED;
            for (auto& f : e.forced) m.push_back({f.from, f.to, false, -1, f.histCb});
        }
        if (m.empty()) return FAILED;
        R res = FAILED;
        for (auto& t : m) if (t.internal) {
            if (t.cb >= 0) env.trans(t.cb, e.args);
            res = OK;
            cov["internal_self"]++;
        }
        std::vector<T> ext;
        for (auto& t : m) if (!t.internal) ext.push_back(t);
        if (ext.empty()) return res;
        if (ext.size() > 1) cov["multi_target"]++;
        std::vector<int> exited;
        if (e.kind == 0) {
            bool allowed = true;
            for (int i = (int)active.size() - 1; i >= 0 && allowed; --i) {
                int s = active[i];
                if (s == from || sp.within(from, s)) {
                    if (callExit(s)) exited.push_back(s); else allowed = false;
                }
            }
            if (!allowed) {
                cov["exit_refused"]++;
                if (exited.size() > 0) cov["exit_refused_rollback"]++;
                if (exited.size() > 1) cov["exit_refused_rollback_deep"]++;
                for (int s : exited) remove(s);
                rollback(exited);
                return CANCELED;
            }
            storeHistory(from, exited);
            for (int s : exited) remove(s);
        }
        int refusedTargets = 0;
        for (auto& t : ext) {
            R r = external(e, from, t, exited);
            if (r == FAILED) ++refusedTargets;
            res = r;   // outcome of the last target decides
        }
        (void)refusedTargets;
        return res;
    }
    void rollback(const std::vector<int>& exited) {
        for (auto it = exited.rbegin(); it != exited.rend(); ++it) {
            (void)callEnter(*it, Args());
            if (add(*it)) callChanged(*it, Args());
        }
    }
    void storeHistory(int from, const std::vector<int>& exited) {
        std::set<int> cleared;
        for (int x : exited) {
            int cur = x;
            while (sp.st[cur].parent >= 0) {
                int par = sp.st[cur].parent;
                for (size_t h = 0; h < sp.st.size(); ++h) {
                    if (sp.st[h].history == 0 || sp.st[h].histParent != par) continue;
                    if (cleared.insert((int)h).second) hist[(int)h].clear();
                    int val = sp.st[h].history == 1 ? cur : x;
                    auto& v = hist[(int)h];
                    if (std::find(v.begin(), v.end(), val) == v.end()) v.push_back(val);
                }
                if (par == from) break;
                cur = par;
            }
        }
    }
    R external(const Ev& e, int from, const T& t, const std::vector<int>& exited) {
        if (t.cb >= 0) env.trans(t.cb, e.args);
        if (t.histCb >= 0) env.hist(t.histCb, e.args);
        if (!callEnter(t.to, e.args)) {
            cov["entry_refused"]++;
            if (e.kind == 2) unspecified = true;   // refusing the continuation of a history transition is unspecified
            if (exited.size() > 1) cov["entry_refused_rollback_deep"]++;
            rollback(exited);
            return FAILED;
        }
        if (e.kind == 2 && from != t.to && !sp.within(from, t.to)) remove(from);   // leave the history pseudo state
        if (add(t.to)) callChanged(t.to, e.args);
        if (e.kind == 1) cov["entered_by_entrypoint"]++; else if (e.kind == 2) cov["entered_by_history"]++; else cov["external_transitions"]++;
        const StateSpec& d = sp.st[t.to];
        if (d.isFinal) {
            cov["final_entered"]++;
            if (d.parent >= 0) {
                bool others = false;
                for (int a : active) if (sp.within(d.parent, a) && !sp.st[a].isFinal) others = true;
                if (!others) {
                    Ev f; f.kind = 0; f.args = e.args; f.id = d.finalEvent != NOEVENT ? d.finalEvent : e.id; f.origin = nextOrigin++; f.argOrigin = e.argOrigin;
                    q.push_front(f);
                    cov["final_event"]++;
                }
            }
            return OK;
        }
        if (d.history) { restore(t.to, e); return PENDING; }
        if (e.ign) return PENDING;
        if (entryPoints(t.to, e.id, e.args).empty()) return OK;
        if (descActive(t.to)) return OK;   // already entered: nothing left to do
        if (!q.empty() && q.front().kind == 1 && q.front().argOrigin == e.argOrigin && q.front().id == e.id && q.front().waiter == e.waiter) return PENDING;  // already scheduled by the same event
        Ev c = e; c.kind = 1; c.forced.clear();
        q.push_front(c);
        return PENDING;
    }
    void restore(int h, const Ev& e) {
        const StateSpec& hs = sp.st[h];
        auto stored = hist[h];
        Ev c = e; c.kind = 2; c.forced.clear();
        if (!stored.empty()) {
            cov[hs.history == 1 ? "history_shallow" : "history_deep"]++;
            hist[h].clear();
            std::vector<int> leaf, comp;
            for (int s : stored) {
                bool hasStored = false;
                for (int o : stored) if (sp.within(s, o)) hasStored = true;
                (hasStored ? comp : leaf).push_back(s);
            }
            std::reverse(comp.begin(), comp.end());   // parents first
            Ev l = c; l.ign = false;
            for (int s : leaf) l.forced.push_back({h, s, -1});
            Ev p = c; p.ign = true;
            p.forced.push_back({h, hs.histParent, -1});
            Ev m = c; m.ign = true;
            for (int s : comp) m.forced.push_back({h, s, -1});
            if (leaf.size() > 1) cov["history_parallel"]++;
            q.push_front(l);
            if (!comp.empty()) q.push_front(m);
            q.push_front(p);
        } else {
            cov["history_default"]++;
            if (hs.histDefault < 0) {
                Ev p = c; p.ign = false;
                p.forced.push_back({h, hs.histParent, hs.histCb ? h : -1});
                q.push_front(p);
            } else {
                Ev d = c; d.ign = false;
                d.forced.push_back({h, hs.histDefault, hs.histCb ? h : -1});
                q.push_front(d);
                Ev p = c; p.ign = true;
                p.forced.push_back({h, hs.histParent, -1});
                q.push_front(p);
            }
        }
    }
};
}  // namespace vm
