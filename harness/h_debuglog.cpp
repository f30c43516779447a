// C22: the debug log of a state machine against the callbacks which were observed while it was written.
#include "real.hpp"
#include <sys/stat.h>
#include <fstream>
#include <hsmcpp/HsmEventDispatcherSTD.hpp>
#include <thread>

using namespace vm;
using vh::Options;
using vh::Result;
using vh::Rng;

static Result R;
static std::string gDir;

// names with characters which need care
static std::string sname(int id) { return "S" + std::to_string(id) + (id % 5 == 0 ? " \"q\": x" : id % 7 == 0 ? " a\\b #" : ""); }
static std::string ename(int id) { return id == INVALID_HSM_EVENT_ID ? "" : "E" + std::to_string(id) + (id % 5 == 0 ? " - '\"" : ""); }

struct Named : public HierarchicalStateMachine {
    using HierarchicalStateMachine::HierarchicalStateMachine;
    std::string getStateName(const StateID_t s) const override { return s == INVALID_HSM_STATE_ID ? std::string() : sname(s); }
    std::string getEventName(const EventID_t e) const override { return ename(e); }
};

// ---------------------------------------------------------------- parser (the subset of YAML used by the log)
struct Entry {
    std::string time, action, from, to, event;
    bool failed = false;
    std::vector<std::string> active, args;
    std::string text() const {
        std::string s = action + (failed ? "!" : "") + " from='" + from + "' to='" + to + "' event='" + event + "' args=[";
        for (auto& a : args) s += a + "|";
        s += "] active={";
        for (auto& a : active) s += a + "|";
        return s + "}";
    }
};
static bool scalar(const std::string& l, size_t p, std::string& out, std::string& err) {
    while (p < l.size() && l[p] == ' ') ++p;
    out.clear();
    if (p >= l.size()) return true;
    if (l[p] != '"') {      // a plain value: a number or a word
        out = l.substr(p);
        for (char c : out) if (!(isalnum((unsigned char)c) || c == '_' || c == '.' || c == '-' || c == '+')) { err = "unquoted value '" + out + "'"; return false; }
        return true;
    }
    for (++p; p < l.size(); ++p) {
        unsigned char c = (unsigned char)l[p];
        if (c == '"') { if (p + 1 != l.size()) { err = "text after the closing quote: " + l; return false; } return true; }
        if (c < 0x20 || c == 0x7f) { err = "control character in: " + l; return false; }
        if (c == '\\') {
            char n = ++p < l.size() ? l[p] : 0;
            static const std::map<char, char> simple = {{'"', '"'}, {'\\', '\\'}, {'n', '\n'}, {'t', '\t'}, {'r', '\r'}, {'0', 0}, {'a', 7}, {'b', 8}, {'v', 11}, {'f', 12}, {'e', 27}, {'/', '/'}};
            auto it = simple.find(n);
            if (it != simple.end()) out += it->second;
            else if (n == 'x' && p + 2 < l.size()) { out += (char)strtol(l.substr(p + 1, 2).c_str(), nullptr, 16); p += 2; }
            else { err = "unknown escape in: " + l; return false; }
        } else out += (char)c;
    }
    err = "no closing quote: " + l;
    return false;
}
static bool parseLog(const std::string& path, std::vector<Entry>& out, std::string& err) {
    std::ifstream f(path, std::ios::binary);
    if (!f) { err = "no file"; return false; }
    std::string all((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    std::vector<std::string> lines;
    std::string cur;
    for (char c : all) { if (c == '\n') { lines.push_back(cur); cur.clear(); } else cur += c; }
    if (!cur.empty()) lines.push_back(cur);
    int where = 0;   // 1: active states  2: args
    int fields = 0;
    auto done = [&]() { if (!out.empty() && fields != 127) { err = "incomplete entry: " + out.back().text(); return false; } fields = 0; return true; };
    for (size_t i = 0; i < lines.size(); ++i) {
        const std::string& l = lines[i];
        if (i == 0 && l == "---") continue;
        if (l.empty()) continue;
        if (l == "-") { if (!done()) return false; out.emplace_back(); where = 0; continue; }
        if (out.empty()) { err = "unexpected line: " + l; return false; }
        Entry& e = out.back();
        if (l.compare(0, 6, "    - ") == 0) {
            std::string v;
            if (!scalar(l, 6, v, err)) return false;
            if (where == 1) e.active.push_back(v);
            else if (where == 2) e.args.push_back(v);
            else { err = "unexpected item: " + l; return false; }
            continue;
        }
        auto c = l.find(':');
        if (l.compare(0, 2, "  ") != 0 || c == std::string::npos) { err = "unexpected line: " + l; return false; }
        std::string k = l.substr(2, c - 2), v;
        if (!scalar(l, c + 1, v, err)) return false;
        where = 0;
        int bit = 0;
        if (k == "timestamp") { e.time = v; bit = 1; }
        else if (k == "active_states") { where = 1; bit = 2; }
        else if (k == "action") { e.action = v; bit = 4; }
        else if (k == "from_state") { e.from = v; bit = 8; }
        else if (k == "target_state") { e.to = v; bit = 16; }
        else if (k == "event") { e.event = v; bit = 32; }
        else if (k == "status") { e.failed = v == "failed"; if (!v.empty() && !e.failed) { err = "unknown status " + v; return false; } bit = 64; }
        else if (k == "args") where = 2;
        else { err = "unknown field " + k; return false; }
        if (bit && (fields & bit)) { err = "field twice: " + k; return false; }
        fields |= bit;
    }
    return done();
}

// ---------------------------------------------------------------- expectation
struct Obs { std::string tok; std::vector<int> active; bool before, after; int file; };

struct Exp { Entry e; bool hist = false; };

struct Side {
    const Spec& sp;
    Real x;
    std::map<std::string, std::vector<std::string>> argText;   // fingerprint -> texts in the log
    std::vector<Obs> obs;
    std::function<void()> onCallback;
    bool enabled = false;
    int file = 0;
    explicit Side(const Spec& s) : sp(s), x(s) {}
    void know(const std::vector<Val>& v) {
        std::vector<std::string> t;
        for (auto& a : v) t.push_back(toVariant(a).toString());
        argText[mkArgs(v).fp] = t;
    }
    void init() {
        x.make = [](int i) { return new Named(i); };
        x.build();
        argText[""] = {};
        for (auto& a : sp.act) if (a.kind == 3) know(a.args);
        x.env.onTok = [this]() {
            Obs o{x.env.trace.back(), x.active(), enabled, enabled, file};
            if (onCallback) { onCallback(); o.after = enabled; }
            obs.push_back(o);
        };
    }
    std::vector<std::string> names(const std::vector<int>& v) const { std::vector<std::string> r; for (int s : v) r.push_back(sname(sp.st[s].id)); return r; }
    // entries which follow from the observed callbacks
    std::vector<Exp> expected(int f) const {
        std::vector<Exp> r;
        for (auto& o : obs) {
            if (o.file != f) continue;
            char k = o.tok[0];
            if (k != 'T' && k != 'H' && k != 'E' && k != 'X' && k != 'C') continue;
            if (k == 'T' && !isdigit((unsigned char)o.tok[1])) continue;     // calls of timers: TS, TR, TP
            int n = atoi(o.tok.c_str() + 1);
            bool bad = o.tok.find('!') != std::string::npos && (o.tok.find('(') == std::string::npos || o.tok.find('!') < o.tok.find('('));
            std::string fp;
            auto p = o.tok.find('(');
            if (p != std::string::npos) fp = o.tok.substr(p + 1, o.tok.size() - p - 2);
            Exp x2;
            Entry& e = x2.e;
            e.active = names(o.active);
            auto it = argText.find(fp);
            if (it != argText.end()) e.args = it->second; else e.args = {"<unknown " + fp + ">"};
            bool logged = k == 'T' || k == 'H' ? o.before : o.after;
            if (k == 'T') { e.action = "transition"; e.from = sname(sp.st[sp.tr[n].from].id); e.to = sname(sp.st[sp.tr[n].to].id); e.event = ename(sp.evId[sp.tr[n].event]); }
            else if (k == 'H') { x2.hist = true; e.action = "transition"; }
            else if (k == 'E') { e.action = "callback_enter"; e.to = sname(sp.st[n].id); e.failed = bad; }
            else if (k == 'X') { e.action = "callback_exit"; e.from = sname(sp.st[n].id); e.failed = bad; e.args.clear(); }
            else { e.action = "callback_state"; e.to = sname(sp.st[n].id); }
            if (logged) r.push_back(x2);
            if ((k == 'E' || k == 'X') && !bad && o.after) {
                for (auto& a : sp.act)
                    if (a.state == n && a.onEntry == (k == 'E')) {
                        Exp y;
                        y.e.action = k == 'E' ? "onenter_actions" : "onexit_actions";
                        y.e.to = sname(sp.st[n].id);
                        y.e.active = e.active;
                        r.push_back(y);
                        break;
                    }
            }
        }
        return r;
    }
};

static bool sameEntry(const Entry& a, const Exp& x) {
    const Entry& b = x.e;
    if (a.active != b.active || a.args != b.args || a.failed != b.failed) return false;
    if (x.hist) return a.action == "transition" || a.action == "transition_entrypoint";
    return a.action == b.action && a.from == b.from && a.to == b.to && a.event == b.event;
}

// compares a log with the expectation. partial: entries may be missing at the end after the first `atLeast`
static std::string compareLog(const std::vector<Entry>& log, const std::vector<Exp>& exp, const Spec& sp, bool partial = false, size_t atLeast = 0) {
    size_t k = 0;
    std::string last = "0";
    std::set<std::string> known;
    for (auto& s : sp.st) known.insert(sname(s.id));
    for (size_t i = 0; i < log.size(); ++i) {
        auto& e = log[i];
        if (e.time.size() != 23 || e.time[4] != '-' || e.time[19] != '.') return "timestamp '" + e.time + "'";
        if (e.time < last) return "timestamps go back: " + last + " -> " + e.time;
        last = e.time;
        for (auto* n : {&e.from, &e.to}) if (!n->empty() && !known.count(*n)) return "unknown state '" + *n + "'";
        for (auto& n : e.active) if (!known.count(n)) return "unknown active state '" + n + "'";
        if (e.action == "idle") { R.add("idle_entries"); if (!e.from.empty() || !e.to.empty() || e.failed) return "idle entry with content: " + e.text(); continue; }
        if (k < exp.size() && sameEntry(e, exp[k])) { ++k; R.add("log.entries"); R.add("log." + e.action); if (e.failed) R.add("log.failed"); if (!e.args.empty()) R.add("log.with_args"); continue; }
        // transitions without callback: into an entry point or restored by history
        if (e.action == "transition_entrypoint" || e.action == "transition") {
            bool userTransition = false;
            if (e.action == "transition") for (auto& t : sp.tr) if (sname(sp.st[t.from].id) == e.from && sname(sp.st[t.to].id) == e.to && ename(sp.evId[t.event]) == e.event && t.cb && !sp.st[t.to].history) userTransition = true;
            if (!userTransition && !e.to.empty() && !e.failed) { R.add("log.implicit"); continue; }
        }
        return "entry " + std::to_string(i) + " is " + e.text() + " but " + (k < exp.size() ? exp[k].e.text() : std::string("nothing")) + " was observed next";
    }
    if (partial ? k < atLeast : k != exp.size()) return "no entry for " + exp[k].e.text();
    return "";
}

static Profile profile(Rng& r) {
    Profile p;
    p.cbMissing = 0;
    p.hist = r.chance(50) ? 40 : 0;
    p.finals = r.chance(40) ? 30 : 0;
    p.refuse = r.chance(60) ? 35 : 0;
    p.actions = r.chance(50) ? 200 : 0;
    p.posts = r.chance(30) ? 20 : 0;
    p.cross = r.chance(15) ? 10 : 0;
    p.richArgs = 50;
    return p;
}
static std::vector<Val> mkVals(Rng& r, int serial) {
    std::vector<Val> v;
    Val g;
    g.i = r.below(16) + 16 * serial;
    v.push_back(g);
    static const char* nasty[] = {"", " ", "a: b", "# no comment", "- x", "\"", "\\", "\\n", "line\nbreak", "tab\t", "'", "{a", "[1, 2]", "&a", "*a", "!tag", "%", "@", "`", "true", "null", "~", "12", "caf\xc3\xa9", "\x01\x7f", "\r\n", "---", "...", "x #y", "a\"b\"c\\"};
    while (r.chance(55) && v.size() < 6) {
        if (r.chance(50)) { Val s; s.t = 's'; s.s = nasty[r.below(sizeof(nasty) / sizeof(*nasty))]; v.push_back(s); }
        else {
            Val s = randVal(r);
            if (r.chance(30)) {   // any bytes: not UTF-8, incomplete UTF-8, UTF-8 which YAML does not allow
                static const char* part[] = {"a", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xef\xbb\xbf", "\xef\xbf\xbe", "\xc2\x85", "\xc2\x9b", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc0\x80", "\xff", "\xe2\x82", "\xa3", "\xf8", "\"", "\\"};
                s = Val(); s.t = 's';
                for (int n = r.below(5); n > 0; --n) s.s += part[r.below(sizeof(part) / sizeof(*part))];
            }
            v.push_back(s);
        }
    }
    return v;
}

static std::string fileName(const char* what, long idx, int f) { return gDir + "/" + what + std::to_string(idx) + "_" + std::to_string(f) + ".hsmlog"; }

static bool runSteps(uint64_t seed, long idx, bool keep) {
    Rng r(seed * 1000003ull + (uint64_t)idx);
    Profile p = profile(r);
    Spec sp = genSpec(r, p);
    Side a(sp), b(sp);      // a writes logs, b never does
    auto da = std::make_shared<StepDispatcher>(), db = std::make_shared<StepDispatcher>();
    a.init(); b.init();
    da->onTimer = [&](const std::string& s) { a.x.env.tok(s); };
    db->onTimer = [&](const std::string& s) { b.x.env.tok(s); };
    for (auto* s : {&a, &b})
        s->x.env.post = [s, &sp](int kind, int ev, const std::vector<Val>& v) {
            s->know(v);
            if (kind == 2) s->x.hsm->transitionWithQueueClear(sp.evId[ev], toVariant(v[0]), toVariant(v[1]));
            else s->x.hsm->transitionWithArgsArray(sp.evId[ev], Real::vlist(v));
        };
    std::string history;
    auto fail = [&](const std::string& k, const std::string& m) {
        std::string all;
        for (auto& o : a.obs) all += o.tok + " ";
        std::ifstream f(fileName("s", idx, a.file));
        std::string text((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
        R.violate("debuglog:" + k, m, "seed=" + std::to_string(seed) + " case=" + std::to_string(idx) + "\n" + sp.dump() + history + "\nobserved: " + all.substr(0, 6000) + "\n--- log\n" + text.substr(text.size() > 6000 ? text.size() - 6000 : 0));
        return false;
    };
    int files = 1;
    bool viaEnv = r.chance(10);
    auto enable = [&]() {
        bool ok;
        if (viaEnv) { setenv("HSMCPP_DUMP_PATH", fileName("s", idx, a.file).c_str(), 1); ok = a.x.hsm->enableHsmDebugging(); unsetenv("HSMCPP_DUMP_PATH"); }
        else ok = a.x.hsm->enableHsmDebugging(fileName("s", idx, a.file));
        if (!ok) return false;
        a.enabled = true;
        R.add("enabled");
        return true;
    };
    auto disable = [&]() { a.x.hsm->disableHsmDebugging(); a.enabled = false; R.add("disabled"); };
    for (int f = 0; f < 3; ++f) unlink(fileName("s", idx, f).c_str());
    if (r.chance(5) && a.x.hsm->enableHsmDebugging(gDir + "/missing/dir/x.hsmlog")) return fail("open", "a log which cannot be opened is reported as opened");
    if (r.chance(80) && !enable()) return fail("open", "cannot enable the log");
    int inside = r.chance(40) ? r.range(1, 6) : 0;     // % of callbacks which toggle the log
    a.onCallback = [&]() { if (inside && a.x.env.trace.back()[0] != 'P' && r.chance(inside)) { if (a.enabled) disable(); else enable(); R.add("toggled_in_callback"); } };
    a.x.env.postBudget = b.x.env.postBudget = 4;
    bool initLogged = a.enabled;
    if (!a.x.hsm->initialize(da) || !b.x.hsm->initialize(db)) return fail("init", "initialize failed");
    da->pump(600); db->pump(600);
    auto check = [&]() {
        size_t n = std::min(a.x.env.trace.size(), b.x.env.trace.size());
        for (size_t i = 0; i < n; ++i) if (a.x.env.trace[i] != b.x.env.trace[i]) return fail("behaviour", "with the log: " + a.x.env.trace[i] + ", without: " + b.x.env.trace[i]);
        if (a.x.env.trace.size() != b.x.env.trace.size() || a.x.active() != b.x.active()) return fail("behaviour", "the log changes what the machine does");
        return true;
    };
    for (int s = 0; s < 25 && !da->overrun && !db->overrun; ++s) {
        if (!check()) return false;
        if (r.chance(12)) {
            if (a.enabled) disable();
            else { if (r.chance(25) && files < 3) { a.file = files++; } enable(); }
        }
        size_t obsBefore = a.obs.size();
        uint64_t re = 0, rx = 0;
        if (r.chance(p.refuse)) for (size_t k = 0; k < sp.st.size(); ++k) { if (r.chance(22)) re |= 1ull << k; if (r.chance(18)) rx |= 1ull << k; }
        for (auto* q : {&a, &b}) { q->x.env.refuseEnter = re; q->x.env.refuseExit = rx; q->x.env.postBudget = 4; }
        int n = r.chance(25) ? r.range(2, 4) : 1;
        da->paused = db->paused = true;
        for (int i = 0; i < n; ++i) {
            int ev = r.below((int)sp.evId.size());
            auto act = a.x.active();
            if (r.chance(70)) { std::vector<int> c2; for (auto& t : sp.tr) if (std::find(act.begin(), act.end(), t.from) != act.end()) c2.push_back(t.event); if (!c2.empty()) ev = c2[r.below((int)c2.size())]; }
            auto v = mkVals(r, s * 8 + i + 1);
            history += "  event " + std::to_string(ev) + "\n";
            for (auto* q : {&a, &b}) { q->know(v); q->x.hsm->transitionWithArgsArray(sp.evId[ev], Real::vlist(v)); }
        }
        da->paused = db->paused = false;
        da->pump(600); db->pump(600);
        R.add("steps");
        // after a completed step the last entry is idle with the current states
        int trans = 0, refused = 0;
        for (size_t i = obsBefore; i < a.obs.size(); ++i) { auto& t = a.obs[i].tok; if (t[0] == 'T' && isdigit((unsigned char)t[1])) ++trans; if (t.find('!') < t.find('(') && t[0] != 'T') ++refused; }
        if (trans == 1 && refused == 0 && a.enabled && !inside && !da->overrun && a.obs.size() > obsBefore && n == 1 && a.obs.back().tok[0] == 'C' && r.chance(25)) {
            std::vector<Entry> log;
            std::string err;
            if (!parseLog(fileName("s", idx, a.file), log, err)) return fail("format", err);
            if (log.empty() || log.back().action != "idle") return fail("idle", "last entry after a completed step is " + (log.empty() ? std::string("missing") : log.back().text()));
            if (log.back().active != a.names(a.x.active())) return fail("idle-states", "idle entry with other states: " + log.back().text());
            R.add("idle_checks");
        }
    }
    if (da->overrun || db->overrun) { R.add("livelocked"); a.x.hsm->release(); b.x.hsm->release(); return true; }
    if (!check()) return false;
    int how = r.below(3);
    if (how == 0) a.x.hsm->disableHsmDebugging();
    else if (how == 1) a.x.hsm->release();
    // otherwise the machine is still running with the log enabled
    for (int f = 0; f < files; ++f) {
        std::vector<Entry> log;
        std::string err;
        auto exp = a.expected(f);
        struct stat st;
        if (stat(fileName("s", idx, f).c_str(), &st) != 0) { if (!exp.empty()) return fail("missing", "log was not created"); continue; }
        if (!parseLog(fileName("s", idx, f), log, err)) return fail("format", err);
        std::string d = compareLog(log, exp, sp);
        if (!d.empty()) { a.file = f; return fail("content", d); }
        if (f == 0 && initLogged && (log.empty() || log[0].action != "idle" || !log[0].active.empty())) return fail("first-entry", "no idle entry at initialization");
        R.add("logs");
        if (keep) {          // what the parser understood, to be compared with a YAML library
            std::ofstream j(fileName("s", idx, f) + ".json");
            j << "[";
            for (size_t i = 0; i < log.size(); ++i) {
                auto& e = log[i];
                auto q = [](const std::string& t) { return "\"" + vh::jsonEsc(t) + "\""; };
                auto list = [&](const std::vector<std::string>& v) { std::string o = "["; for (auto& t : v) o += (o.size() > 1 ? "," : "") + q(t); return o + "]"; };
                j << (i ? ",\n" : "") << "{\"timestamp\":" << q(e.time) << ",\"action\":" << q(e.action) << ",\"from_state\":" << q(e.from) << ",\"target_state\":" << q(e.to) << ",\"event\":" << q(e.event)
                  << ",\"status\":" << q(e.failed ? "failed" : "") << ",\"active_states\":" << list(e.active) << ",\"args\":" << list(e.args) << "}";
            }
            j << "]";
        } else unlink(fileName("s", idx, f).c_str());
    }
    std::string all;
    for (auto& t : a.x.env.trace) all += t;
    if (a.x.env.trace.size() > 20) R.note(vh::hashStr(sp.dump() + all));
    R.add("callbacks", (long)a.x.env.trace.size());
    R.sample("case " + std::to_string(idx) + "\n" + sp.dump().substr(0, 500));
    b.x.hsm->release();
    if (how != 1) a.x.hsm->release();
    return true;
}

// logs of several machines on their own dispatchers; each is closed by another thread at an arbitrary moment
static bool runThreads(uint64_t seed, long idx) {
    Rng r(seed * 7919ull + (uint64_t)idx);
    struct M { Spec sp; std::unique_ptr<Side> s; std::shared_ptr<HsmEventDispatcherSTD> d; std::atomic<long> toks{0}; long before = 0; std::string file; };
    std::vector<std::unique_ptr<M>> ms;
    int n = r.range(2, 3);
    std::string bad;
    for (int i = 0; i < n; ++i) {
        ms.emplace_back(new M());
        M& m = *ms.back();
        Profile p = profile(r);
        p.posts = 0; p.finals = 0;
        p.actions = 0;
        m.sp = genSpec(r, p);
        m.s.reset(new Side(m.sp));
        m.s->init();
        m.s->onCallback = [&m]() { m.toks.fetch_add(1); };
        m.s->enabled = true;
        m.d = HsmEventDispatcherSTD::create();
        m.file = fileName("t", idx, i);
        unlink(m.file.c_str());
        if (!m.s->x.hsm->enableHsmDebugging(m.file)) bad = "cannot enable";
        m.d->start();
        if (!m.s->x.hsm->initialize(m.d)) bad = "cannot initialize";
    }
    if (!bad.empty()) { R.violate("debuglog:threads", bad); return false; }
    std::vector<std::thread> ts;
    std::vector<uint64_t> seeds;
    for (int i = 0; i < n; ++i) seeds.push_back(r.next());
    // arguments are the same for all events: only their number is in the queue
    for (int i = 0; i < n; ++i)
        ts.emplace_back([&, i]() {
            M& m = *ms[i];
            Rng q(seeds[i]);
            int cnt = q.range(10, 60), stopAt = q.below(cnt + 10);
            for (int k = 0; k < cnt; ++k) {
                if (k == stopAt) {
                    m.before = m.toks.load();
                    m.s->x.hsm->disableHsmDebugging();
                    R.add("closed_while_running");
                }
                m.s->x.hsm->transition(m.sp.evId[q.below((int)m.sp.evId.size())], (int)q.below(16));
                if (q.chance(20)) std::this_thread::sleep_for(std::chrono::microseconds(q.below(200)));
            }
            if (stopAt >= cnt) m.before = -1;
        });
    for (auto& t : ts) t.join();
    bool ok = true;
    for (auto& mp : ms) {
        M& m = *mp;
        (void)m.s->x.hsm->transitionSync(INVALID_HSM_EVENT_ID - 1, 60000);   // everything posted before is processed
        m.s->x.hsm->release();
        m.d->stop();
        m.d->join();
        for (int g = 0; g < 16; ++g) { Val v; v.i = g; v.t = 'i'; m.s->know({v}); }
        std::vector<Entry> log;
        std::string err;
        if (!parseLog(m.file, log, err)) { R.violate("debuglog:threads-format", err, m.file); ok = false; continue; }
        auto exp = m.s->expected(0);
        size_t least = exp.size();
        if (m.before >= 0) {
            // callbacks counted before the call: all but the last one (whose entry may follow the callback) were logged
            auto saved = m.s->obs;
            if ((long)m.s->obs.size() > m.before - 1) m.s->obs.resize((size_t)std::max(0L, m.before - 1));
            least = m.s->expected(0).size();
            m.s->obs = saved;
        }
        std::string d = compareLog(log, exp, m.sp, m.before >= 0, least);
        if (!d.empty()) {
            std::string all;
            for (auto& o : m.s->obs) all += o.tok + " ";
            R.violate("debuglog:threads", d, "seed=" + std::to_string(seed) + " case=" + std::to_string(idx) + " before=" + std::to_string(m.before) + "\n" + m.sp.dump() + "observed: " + all.substr(0, 5000));
            ok = false;
        }
        R.add("thread_logs");
        unlink(m.file.c_str());
        std::string all;
        for (auto& o : m.s->obs) all += o.tok;
        R.note(vh::hashStr(all));
    }
    return ok;
}

int main(int argc, char** argv) {
    Options o(argc, argv);
    std::string out = o.str("out", "/dev/null"), mode = o.str("mode", "steps"), keep = o.str("keep", "");
    uint64_t seed = (uint64_t)o.num("seed", 1);
    long cases = o.num("cases", 100), only = o.num("only", -1);
    char tmpl[] = "/tmp/hsmlogXXXXXX";
    gDir = keep.empty() ? std::string(mkdtemp(tmpl)) : keep;
    vh::CaseGuard guard(R, out, [&]() { if (keep.empty() && system(("rm -rf " + gDir).c_str())) {} });
    for (long i = 0; i < cases; ++i) {
        if (only >= 0 && i != only) continue;
        R.eval();
        if (mode == "steps") runSteps(seed, i, !keep.empty()); else runThreads(seed, i);
        if (R.nviol() >= 10) break;
    }
    R.write(out);
    if (keep.empty()) { if (system(("rm -rf " + gDir).c_str())) {} }
    return 0;
}
