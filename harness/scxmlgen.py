#!/usr/bin/env python3
"""C21: random SCXML documents are given to tools/scxml2gen. The generated code is compiled and driven in lockstep with a
machine which is registered directly from the description of the document; the diagram is compared with the description."""
import argparse, copy, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile

HARN = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HARN), "lib"))
import vbuild

TOOL = os.path.join(vbuild.REPO, "tools", "scxml2gen")
ap = argparse.ArgumentParser()
for a in ("seed", "cases", "shard", "only"):
    ap.add_argument("--" + a, type=int, default=-1)
for a in ("prop", "tier", "out", "keep"):
    ap.add_argument("--" + a, default="")
A = ap.parse_args()
R = {"evaluations": 0, "distinct": [], "stats": {}, "samples": [], "violation_count": 0, "violations": []}
per_key = {}


def stat(k, n=1):
    R["stats"][k] = R["stats"].get(k, 0) + n


def violate(key, msg, detail):
    R["violation_count"] += 1
    per_key[key] = per_key.get(key, 0) + 1
    if per_key[key] <= 3:
        R["violations"].append({"key": "scxml:" + key, "msg": msg, "detail": detail[:6000]})


class Node:
    def __init__(self, tag, nid):
        self.tag, self.id, self.full = tag, nid, nid
        self.kids = []
        self.init = None            # 'attr' or list of (child, event, cond, expected)
        self.init_child = None
        self.onstate = self.onentry = self.onexit = None
        self.actions = {"entry": [], "exit": []}
        self.trans = []             # dict(target, event, cb, cond, expected, type, implicit)
        self.hist = None            # (type, default node, callback, event)
        self.final_event = None
        self.include = None         # 'src' or 'xi': the children are in another document
        self.file = None
        self.direct = []            # children which come from an included document but keep their names
        self.direct_file = None
        self.in_direct = False

    def walk(self):
        yield self
        for k in self.kids:
            yield from k.walk()


ORDER = {"state": 0, "parallel": 1, "final": 3, "history": 4}


class Doc:
    def __init__(self, rnd, name):
        self.r, self.name = rnd, name
        self.used = set()
        self.files = {}
        self.events = ["E%d" % i for i in range(rnd.randint(2, 4))] + rnd.sample(["GO", "go", "Next_state", "ON", "e", "_ev"], 2)
        self.timers = rnd.sample(["T1", "T10", "TIMER_A", "t_b"], rnd.randint(0, 2))
        self.events += ["ON_TIMER_" + t for t in self.timers if rnd.random() < 0.7]
        if rnd.random() < 0.15:
            self.events.append("ON_TIMER_FROMCODE")
        self.cbs = {k: [k + s for s in ("A", "B", "A1", "_c")] for k in ("onState", "onEnter", "onExit", "onTrans", "chk")}
        self.root = Node("scxml", "")
        n = rnd.randint(2, 4)
        self.fill(self.root, n, 0, True)
        self.name_all()
        self.attributes()
        self.clone_includes()
        self.name_all()

    # ------------------------------------------------------------ structure
    def fresh(self, kind):
        base = {"state": ["S", "State", "Idle", "s", "A", "Run"], "parallel": ["P", "Par"], "final": ["F", "Final", "S"], "history": ["H", "Hist"]}[kind]
        while True:
            n = self.r.choice(base) + self.r.choice(["", "1", "2", "10", "_x", "1_1", "Ab"])
            if n not in self.used and n not in ("E",):
                self.used.add(n)
                return n

    def fill(self, p, n, depth, root=False):
        """gives p children; at least one can be entered"""
        r = self.r
        for i in range(n):
            tag = "state" if i == 0 or r.random() < 0.85 else "parallel"
            if tag == "parallel" and depth > 1:
                tag = "state"
            c = Node(tag, self.fresh(tag))
            p.kids.append(c)
            if tag == "parallel":
                self.fill(c, r.randint(2, 3), depth + 1)
            elif depth < 2 and r.random() < (0.4 if depth == 0 else 0.25):
                self.fill(c, r.randint(1, 3), depth + 1)
                if r.random() < 0.3:
                    c.include = r.choice(["src", "xi"])
            elif depth < 2 and r.random() < 0.06:   # only final children
                f = Node("final", self.fresh("final"))
                c.kids.append(f)
        if p.tag != "parallel" and r.random() < 0.3:
            f = Node("final", self.fresh("final"))
            p.kids.append(f)
        if not root:
            for _ in range(r.choice([0, 0, 1, 1, 2])):
                p.kids.append(Node("history", self.fresh("history")))
        if r.random() < 0.12 and p.tag in ("state", "scxml") and not p.include:
            d = Node("state", self.fresh("state"))
            d.in_direct = True
            p.direct.append(d)
            p.kids.append(d)
            if r.random() < 0.4:
                self.fill(d, r.randint(1, 2), 2)
        if p.direct and (p.tag == "scxml" or any(k.tag == "state" and not k.in_direct for k in p.kids)):
            pass
        p.kids.sort(key=lambda k: 2 if k.in_direct else ORDER[k.tag])
        # included documents (with own prefix) must not contain a reference to outside: their content is complete

    def name_all(self):
        def go(n, prefix, region):
            for k in n.kids:
                k.full = prefix + k.id
                k.region = region
                if k.include:
                    go(k, k.full + "__", k)
                else:
                    go(k, prefix, region)
        self.root.region = self.root
        self.root.full = ""
        go(self.root, "", self.root)

    def all(self):
        for k in self.root.kids:
            yield from k.walk()

    def prefix(self, region):
        return "" if region is self.root else region.full + "__"

    # ------------------------------------------------------------ content
    def attributes(self):
        r = self.r
        nodes = list(self.all())
        self.unique_final = 0
        for n in [self.root] + nodes:
            enter = [k for k in n.kids if k.tag in ("state", "parallel") and not k.in_direct]
            if n.tag in ("state", "scxml") and n.kids:
                if not enter:
                    # only final or history children: a final state is the entry
                    n.init = "none"
                    fin = [k for k in n.kids if k.tag == "final"]
                    continue
                c = r.choice(enter)
                n.init_child = c
                n.init = "attr"
                if r.random() < 0.35 and not n.include and n.tag == "state":
                    n.init = [(c, None, None, None)]
                    if r.random() < 0.6:
                        n.init = []
                        for _ in range(r.randint(1, 3)):
                            k = r.choice(enter)
                            ev = r.choice(self.events) if r.random() < 0.5 else None
                            cond = self.cond() if ev is None or r.random() < 0.5 else None
                            if not any(x[0] is k and x[1:] == (ev,) + (cond or (None, None)) for x in n.init):
                                n.init.append((k, ev) + (cond or (None, None)))
                        if r.random() < 0.5:
                            rest = [k for k in enter if not any(x[0] is k for x in n.init)]
                            if rest:
                                n.init.append((r.choice(rest), None, None, None))
        for n in nodes:
            if n.tag == "history":
                parent = next(p for p in nodes if n in p.kids)
                inside = [k for k in parent.walk() if k is not parent and k.tag in ("state", "parallel", "final") and k.region is n.region]
                d = r.choice(inside) if inside and r.random() < 0.7 else None
                if d is None and any(n in p.kids for p in nodes if p.tag == "parallel"):
                    pass
                n.hist = (r.choice(["deep", "shallow"]), d, self.cb("onTrans") if d and r.random() < 0.6 else None, r.choice(self.events + [None, None]) if d else None)
                continue
            if r.random() < 0.6:
                n.onstate = self.cb("onState")
            if r.random() < 0.4:
                n.onentry = self.cb("onEnter")
            if r.random() < 0.4:
                n.onexit = self.cb("onExit")
            if n.tag == "final":
                if r.random() < 0.75:
                    if r.random() < 0.5:
                        n.final_event = r.choice(self.events)
                    else:
                        n.final_event = "DONE%d" % self.unique_final
                        self.unique_final += 1
                continue
            for trig in ("entry", "exit"):
                while r.random() < 0.18:
                    n.actions[trig].append(self.action())
            regs = [n.region]
            cand = [t for t in nodes if t.full.startswith(self.prefix(n.region)) and (n.region is self.root or t in list(n.region.walk())) and not any(p.tag == "parallel" and t in p.kids and t.tag != "history" for p in nodes)]
            parent = next((p for p in [self.root] + nodes if n in p.kids))
            sib = [t for t in cand if t in parent.kids and t is not n]
            for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
                t = {"event": r.choice(self.events), "cb": self.cb("onTrans") if r.random() < 0.5 else None, "cond": None, "expected": None, "type": None, "implicit": False}
                if r.random() < 0.35:
                    t["cond"], t["expected"] = self.cond()
                k = r.random()
                if k < 0.15:
                    t["target"] = n
                    t["implicit"] = r.random() < 0.5
                    t["type"] = r.choice([None, "internal", "external"])
                elif k < 0.8 and sib:
                    t["target"] = r.choice(sib)
                else:
                    far = [c for c in cand if c is not n and c not in list(n.walk())] or [c for c in cand if c is not n]
                    if not far:
                        continue
                    t["target"] = r.choice(far)
                n.trans.append(t)

    def cb(self, kind):
        return self.r.choice(self.cbs[kind])

    def cond(self):
        return self.cb("chk"), self.r.random() < 0.6

    def action(self):
        r = self.r
        if self.timers and r.random() < 0.6:
            t = r.choice(self.timers)
            return r.choice([["start_timer", t, str(r.randint(1, 5000)), r.choice(["true", "false"])], ["stop_timer", t], ["restart_timer", t]])
        ev = r.choice(self.events) if r.random() < 0.8 else "ACT%d" % r.randint(0, 1)
        return ["transition", ev] + [r.choice([str(r.randint(0, 99)), "true", '"txt"']) for _ in range(r.choice([0, 0, 1, 2]))]

    def clone_includes(self):
        """the same document included for a second time"""
        r = self.r
        for p in [self.root] + list(self.all()):
            for k in list(p.kids):
                if k.include and not p.include and k.region is self.root and p.tag != "parallel" and r.random() < 0.5:
                    c = copy.deepcopy(k, {id(self.root): self.root})
                    c.id = self.fresh("state")
                    c.include = r.choice(["src", "xi"])
                    c.trans = []
                    c.clone_of = k
                    others = [s for s in p.kids if s.tag == "state" and s is not c]
                    c.trans.append({"event": r.choice(self.events), "cb": None, "cond": None, "expected": None, "type": None, "implicit": False, "target": r.choice(others)})
                    r.choice(others).trans.append({"event": r.choice(self.events), "cb": None, "cond": None, "expected": None, "type": None, "implicit": False, "target": c})
                    p.kids.insert([x.tag for x in p.kids].index("state") + r.randint(0, 1), c)
                    p.kids.sort(key=lambda q: 2 if q.in_direct else ORDER[q.tag])
                    stat("included_twice")
                    return

    # ------------------------------------------------------------ xml
    def write(self, d):
        self.dir = d
        self.nfile = 0
        main = os.path.join(d, self.name + ".scxml")
        open(main, "w").write(self.document(self.root, self.root))
        return main

    def document(self, n, region, direct=None):
        r = self.r
        ns = ' xmlns="http://www.w3.org/2005/07/scxml"' if r.random() < 0.8 else ""
        init = ""
        if direct is None and n.init == "attr":
            init = ' initial="%s"' % n.init_child.full[len(self.prefix(region)):]
        s = '<?xml version="1.0" encoding="UTF-8"?>\n<scxml%s version="1.0" xmlns:xi="http://www.w3.org/2001/XInclude" xmlns:qt="http://www.qt.io/2015/02/scxml-ext" name="x"%s>\n' % (ns, init)
        if r.random() < 0.3:
            s += "<!-- comment --><datamodel/>\n"
        kids = direct if direct is not None else n.kids
        s += self.children(n, kids, region, direct is not None)
        return s + "</scxml>\n"

    def children(self, n, kids, region, in_file):
        s = ""
        done = False
        for k in kids:
            if k.in_direct and k in n.direct and not in_file:
                if not done:
                    done = True
                    f = "d%d_%s.scxml" % (self.nfile, self.name)
                    self.nfile += 1
                    open(os.path.join(self.dir, f), "w").write(self.document(n, region, n.direct))
                    s += '<xi:include href="%s" parse="xml"/>\n' % f
                    stat("direct_includes")
            else:
                s += self.element(k, region)
        return s

    def element(self, n, region):
        r = self.r
        pre = self.prefix(region)
        at = [("id", n.id)]
        body = ""
        if n.tag == "history":
            at.append(("type", n.hist[0]))
            if n.hist[1]:
                ev = ' event="%s"' % n.hist[3] if n.hist[3] else ""
                body += '<transition%s target="%s">%s</transition>\n' % (ev, n.hist[1].full[len(pre):], "<script>%s</script>" % n.hist[2] if n.hist[2] else "")
        if n.tag == "final" and n.final_event:
            at.append(("event", n.final_event))
        if r.random() < 0.2:
            body += '<qt:editorinfo geometry="1;2;3"/>\n'
        parts = []
        if n.onstate:
            parts.append('<invoke srcexpr="%s"/>\n' % n.onstate)
        for tag, cbk, acts in (("onentry", n.onentry, n.actions["entry"]), ("onexit", n.onexit, n.actions["exit"])):
            items = ["<script>%s(%s)</script>" % (a[0], (", " if r.random() < 0.5 else ",").join(a[1:])) for a in acts]
            if cbk:
                items.insert(r.randint(0, len(items)), "<script>%s</script>" % cbk)
            if items:
                parts.append("<%s>%s</%s>\n" % (tag, "".join(items), tag))
        tr = ""
        for t in n.trans:
            ta = [("event", t["event"])]
            if not t["implicit"]:
                ta.append(("target", t["target"].full[len(pre):]))
            if t["type"]:
                ta.append(("type", t["type"]))
            elif t["target"] is not n and r.random() < 0.3:
                ta.append(("type", "external"))
            if t["cond"]:
                ta.append(("cond", self.cond_text(t["cond"], t["expected"])))
            r.shuffle(ta)
            tr += "<transition %s>%s</transition>\n" % (" ".join('%s="%s"' % x for x in ta), "<script>%s</script>" % t["cb"] if t["cb"] else "")
        parts.append(tr)
        kids = ""
        if n.include:
            if getattr(n, "clone_of", None) is not None and n.clone_of.file:
                f = n.clone_of.file
            else:
                f = "i%d_%s.scxml" % (self.nfile, self.name)
                self.nfile += 1
                # NOTE: names inside are relative to the prefix
                text = self.document(n, n)
                open(os.path.join(self.dir, f), "w").write(text)
                n.file = f
            if n.include == "src":
                at.append(("src", f))
            else:
                kids = '<xi:include href="%s" parse="xml"/>\n' % f
            stat("includes")
        elif n.kids:
            if n.init == "attr":
                at.append(("initial", n.init_child.full[len(pre):]))
            elif isinstance(n.init, list):
                kids += "<initial>"
                for (c, ev, cond, exp) in n.init:
                    kids += '<transition target="%s"%s%s/>' % (c.full[len(pre):], ' event="%s"' % ev if ev else "", ' cond="%s"' % self.cond_text(cond, exp) if cond else "")
                kids += "</initial>\n"
            kids += self.children(n, n.kids, region, False)
        parts.append(kids)
        r.shuffle(parts)
        r.shuffle(at)
        return "<%s %s>%s%s</%s>\n" % (n.tag, " ".join('%s="%s"' % x for x in at), body, "".join(parts), n.tag)

    def cond_text(self, c, expected):
        r = self.r
        if expected and r.random() < 0.4:
            return c
        return c + r.choice([" is ", "  is  "]) + (r.choice(["true", "True"]) if expected else r.choice(["false", "FALSE"]))

    # ------------------------------------------------------------ description
    def used_events(self):
        ev = set()
        for n in self.all():
            for t in n.trans:
                ev.add(t["event"])
            if n.final_event:
                ev.add(n.final_event)
            for tr in n.actions.values():
                for a in tr:
                    if a[0] == "transition":
                        ev.add(a[1])
            if isinstance(n.init, list):
                ev |= {x[1] for x in n.init if x[1]}
        return ev

    def used_timers(self):
        t = {e[len("ON_TIMER_"):] for e in self.used_events() if e.startswith("ON_TIMER_")}
        for n in self.all():
            for tr in n.actions.values():
                t |= {a[1] for a in tr if a[0] != "transition"}
        return t

    def callbacks(self):
        res = {k: set() for k in ("state", "enter", "exit", "trans", "cond")}
        for n in self.all():
            for k, v in (("state", n.onstate), ("enter", n.onentry), ("exit", n.onexit)):
                if v:
                    res[k].add(v)
            for t in n.trans:
                if t["cb"]:
                    res["trans"].add(t["cb"])
                if t["cond"]:
                    res["cond"].add(t["cond"])
            if n.hist and n.hist[2]:
                res["trans"].add(n.hist[2])
            if isinstance(n.init, list):
                res["cond"] |= {x[2] for x in n.init if x[2]}
        return res

    def table(self):
        o = lambda x: x if x else "-"
        b = lambda x: "false" if x is False else "true"
        t = ["init " + self.root.init_child.full]
        for e in sorted(self.used_events() | {"ON_TIMER_" + x for x in self.used_timers()}):
            t.append("event " + e)
        for n in self.all():
            if n.tag != "history":
                t.append("%s %s %s %s %s %s" % ("final" if n.tag == "final" else "state", n.full, o(n.onstate), o(n.onentry), o(n.onexit), o(n.final_event)))
        for n in self.all():
            entries = []
            if n.tag == "parallel":
                entries = [(k, None, None, None) for k in n.kids if k.tag != "history"]
            elif n.init == "attr":
                entries = [(n.init_child, None, None, None)]
            elif isinstance(n.init, list):
                for k in n.kids:      # in the order of states
                    entries += [x for x in n.init if x[0] is k]
            for (k, ev, cond, exp) in entries:
                t.append("entry %s %s %s %s %s" % (n.full, k.full, o(ev), o(cond), b(exp)))
            for k in n.kids:
                if k.tag == "history":
                    t.append("hist %s %s %s %s %s" % (n.full, k.full, k.hist[0], o(k.hist[1] and k.hist[1].full), o(k.hist[2])))
                elif not any(x[0] is k for x in entries):
                    t.append("sub %s %s" % (n.full, k.full))
        for n in self.all():
            for x in n.trans:
                if x["target"] is n:
                    t.append("self %s %s %s %s %s %s" % (n.full, x["event"], x["type"] or "external", o(x["cb"]), o(x["cond"]), b(x["expected"])))
                else:
                    t.append("trans %s %s %s %s %s %s" % (n.full, x["target"].full, x["event"], o(x["cb"]), o(x["cond"]), b(x["expected"])))
        for x in sorted(self.used_timers()):
            t.append("timer %s ON_TIMER_%s" % (x, x))
        for n in self.all():
            for tr in ("entry", "exit"):
                for a in n.actions[tr]:
                    t.append("action %s %s %s" % (n.full, tr, " ".join(a)))
        return "\n".join(t) + "\n"

    def driver(self, cls, suffix, cpp):
        base = cls + suffix
        cb = self.callbacks()
        s = '#include "scxml_rt.hpp"\n#include "%s"\nnamespace {\nstruct Impl : public %s {\n    sx::Gen* g = nullptr;\n' % (cpp, base)
        V = "const hsmcpp::VariantVector_t& a"
        for c in sorted(cb["state"] | cb["trans"]):
            s += '    void %s(%s) override { g->rec.action("%s", a); }\n' % (c, V, c)
        for c in sorted(cb["cond"]):
            s += '    bool %s(%s) override { return g->rec.guard("%s", a); }\n' % (c, V, c)
        for c in sorted(cb["enter"]):
            s += '    bool %s(%s) override { return g->rec.enter("%s", a); }\n' % (c, V, c)
        for c in sorted(cb["exit"]):
            s += '    bool %s() override { return g->rec.exit("%s"); }\n' % (c, c)
        s += '    void onTransitionFailed(const std::list<hsmcpp::StateID_t>& l, const hsmcpp::EventID_t e, %s) override { g->failed(l, e, a); }\n' % V
        s += '    std::string sn(int i) { return getStateName(i); }\n    std::string en(int i) { return getEventName(i); }\n};\n'
        s += 'struct G : public sx::Gen {\n    Impl impl;\n    G() {\n        impl.g = this;\n        states = {%s};\n        events = {%s};\n        timers = {%s};\n    }\n' % (
            ", ".join('{"%s", %sStates::%s}' % (n.full, cls, n.full) for n in self.all()),
            ", ".join('{"%s", %sEvents::%s}' % (e, cls, e) for e in sorted(self.used_events() | {"ON_TIMER_" + x for x in self.used_timers()})),
            ", ".join('{"%s", (int)%sTimers::%s}' % (e, cls, e) for e in sorted(self.used_timers())))
        s += '    hsmcpp::HierarchicalStateMachine& m() override { return impl; }\n    bool init(const std::weak_ptr<hsmcpp::IHsmEventDispatcher>& d) override { return impl.initialize(d); }\n'
        s += '    std::string sname(int i) override { return impl.sn(i); }\n    std::string ename(int i) override { return impl.en(i); }\n};\n'
        s += 'sx::Reg reg("%s", R"TABLE(%s)TABLE", []() { return std::unique_ptr<sx::Gen>(new G()); });\n}\n' % (self.name, self.table())
        return s

    # ------------------------------------------------------------ diagram
    def diagram(self):
        """what the diagram must contain: declared states with their parents and edges with labels"""
        states, edges = set(), []
        parent = {}
        for n in [self.root] + list(self.all()):
            for k in n.kids:
                parent[id(k)] = n
        hname = lambda n: "[H*]" if n.hist[0] == "deep" else "[H]"
        for n in self.all():
            p = parent[id(n)]
            if n.tag not in ("history", "final"):
                states.add((p.full, n.full))
            if n.tag == "history":
                if n.hist[1]:
                    d = n.hist[1]
                    edges.append((p.full, hname(n), "[*]" if d.tag == "final" else d.full, n.hist[3] or "", "", n.hist[2] or ""))
            for t in n.trans:
                g = t["target"]
                c = "%s is %s" % (t["cond"], "true" if t["expected"] else "false") if t["cond"] else ""
                if g.tag == "history":
                    edges.append((parent[id(g)].full, n.full, hname(g), t["event"], c, t["cb"] or ""))
                else:
                    edges.append((p.full, n.full, "[*]" if g.tag == "final" else g.full, t["event"], c, t["cb"] or ""))
            if n.tag == "parallel":
                edges += [(n.full, "[*]", k.full, "", "", "") for k in n.kids if k.tag != "history"]
            elif n.init == "attr":
                edges.append((n.full, "[*]", n.init_child.full, "", "", ""))
            elif isinstance(n.init, list):
                edges += [(n.full, "[*]", c.full, ev or "", "%s is %s" % (co, "true" if ex else "false") if co else "", "") for (c, ev, co, ex) in n.init]
        edges.append(("", "[*]", self.root.init_child.full, "", "", ""))
        return states, sorted(edges)


def parse_diagram(text):
    states, edges, stack = set(), [], [""]
    for l in text.splitlines():
        l = l.strip()
        m = re.match(r"state (\w+) \{$", l)
        if m:
            states.add((stack[-1], m.group(1)))
            stack.append(m.group(1))
            continue
        if l == "}":
            stack.pop()
            continue
        m = re.match(r"state (\w+)$", l)
        if m:
            states.add((stack[-1], m.group(1)))
            continue
        m = re.match(r"(\S+) --> ([^\s:]+)\s*(?::(.*))?$", l)
        if m:
            lab = m.group(3) or ""
            c = re.search(r"\[(.*?)\]", lab)
            k = re.search(r"<(.*?)>", lab)
            e = re.split(r"\\n|\[|<", lab)[0].strip()
            edges.append((stack[-1], m.group(1), m.group(2), e, c.group(1) if c else "", k.group(1) if k else ""))
    return states, sorted(edges)


def tool(args, seed):
    env = dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONDONTWRITEBYTECODE="1")
    return subprocess.run([sys.executable, "-W", "ignore", os.path.join(TOOL, "scxml2gen.py")] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, cwd=TOOL)


def files_of(d):
    return "".join("--- %s\n%s" % (f, open(os.path.join(d, f)).read()) for f in sorted(os.listdir(d)) if f.endswith(".scxml"))


def main():
    work = A.keep or tempfile.mkdtemp(prefix="scxml")
    os.makedirs(work, exist_ok=True)
    objs_lib, flags = vbuild.objects("h_scxml", "plain")
    objs = []
    pch = os.path.join(work, "pch")
    os.makedirs(pch, exist_ok=True)
    subprocess.run(["g++", "-std=c++17", "-O0", "-w"] + flags + ["-x", "c++-header", os.path.join(HARN, "scxml_rt.hpp"), "-o", os.path.join(pch, "scxml_rt.hpp.gch")], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    flags = ["-I" + pch] + flags
    try:
        for i in range(A.cases):
            if A.only >= 0 and i != A.only:
                continue
            rnd = random.Random(A.seed * 100003 + i)
            name = "M%d_%d" % (max(0, A.shard), i)
            d = os.path.join(work, name)
            os.makedirs(d, exist_ok=True)
            doc = Doc(rnd, name)
            path = doc.write(d)
            R["evaluations"] += 1
            for n in doc.all():
                stat("seen." + n.tag)
                stat("seen.transitions", len(n.trans))
            R["distinct"].append(hashlib.sha256(doc.table().encode()).hexdigest()[:16])
            if i == 0:
                R["samples"].append(doc.table()[:400])
            cls, suffix = "C%d_%d" % (max(0, A.shard), i), rnd.choice(["Base", "Gen"])
            dest = os.path.join(d, "out")
            os.makedirs(dest, exist_ok=True)
            cmd = ["-code", "-scxml", path, "-class_name", cls, "-class_suffix", suffix, "-template_hpp", "template.hpp", "-template_cpp", "template.cpp"]
            where = ["-dest_dir", dest] if rnd.random() < 0.5 else ["-dest_hpp", os.path.join(dest, cls + suffix + ".hpp"), "-dest_cpp", os.path.join(dest, cls + suffix + ".cpp")]
            p = tool(cmd + where, 1)
            cpp = os.path.join(dest, cls + suffix + ".cpp")
            if p.returncode != 0 or not os.path.exists(cpp):
                last = [l for l in p.stdout.strip().splitlines()][-1:] or ["no output"]
                violate("generator", "a valid document is not accepted: " + last[0][:200], p.stdout[-1500:] + "\n" + files_of(d))
                continue
            stat("generated")
            if i % 4 == 0:
                first = open(cpp).read() + open(cpp[:-3] + "hpp").read()
                tool(cmd + where, 2 + i)
                stat("generated_twice")
                if first != open(cpp).read() + open(cpp[:-3] + "hpp").read():
                    violate("not-reproducible", "generating twice gives different code", files_of(d))
            pu = os.path.join(d, "diagram.pu")
            p = tool(["-plantuml", "-scxml", path, "-out", pu] + (["-left2right"] if rnd.random() < 0.3 else []), 1)
            if p.returncode != 0 or not os.path.exists(pu):
                violate("diagram-failed", "no diagram for a valid document", p.stdout[-1500:] + "\n" + files_of(d))
            else:
                ws, we = doc.diagram()
                gs, ge = parse_diagram(open(pu).read())
                stat("diagram_edges", len(we))
                if ws != gs:
                    violate("diagram-states", "states of the diagram: missing %s, unexpected %s" % (sorted(ws - gs), sorted(gs - ws)), files_of(d))
                if we != ge:
                    violate("diagram-transitions", "transitions of the diagram: missing %s, unexpected %s" % ([e for e in we if e not in ge][:4], [e for e in ge if e not in we][:4]), files_of(d) + open(pu).read())
            drv = os.path.join(d, "driver.cpp")
            open(drv, "w").write(doc.driver(cls, suffix, cpp))
            obj = os.path.join(d, "driver.o")
            if i % 5 == 1:      # the generated file is complete on its own
                alone = subprocess.run(["g++", "-std=c++17", "-fsyntax-only", "-w"] + flags + [cpp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                stat("compiled_alone")
                if alone.returncode:
                    violate("does-not-compile", "generated code does not compile: " + "; ".join([l for l in alone.stdout.splitlines() if "error" in l][:3])[:400], files_of(d))
                    continue
            c = subprocess.run(["g++", "-std=c++17", "-O0", "-w"] + flags + ["-c", drv, "-o", obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if c.returncode != 0:
                alone = subprocess.run(["g++", "-std=c++17", "-fsyntax-only", "-w"] + flags + [cpp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                err = [l for l in (alone.stdout if alone.returncode else c.stdout).splitlines() if "error" in l][:3]
                violate("does-not-compile" if alone.returncode else "names", ("generated code does not compile: " if alone.returncode else "generated code does not have the names of the document: ") + "; ".join(err)[:400], files_of(d))
                continue
            objs.append(obj)
        if objs:
            exe = os.path.join(work, "run")
            c = subprocess.run(["g++"] + objs + objs_lib + ["-o", exe, "-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if c.returncode != 0:
                print(c.stdout[-3000:], file=sys.stderr)
                sys.exit(3)
            out = os.path.join(work, "r.json")
            p = subprocess.run([exe, "--seed", str(A.seed), "--cases", "8", "--out", out], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
            if p.returncode < 0:
                violate("crash", "generated machines crash with signal %d" % -p.returncode, p.stderr[-1500:])
                x = {"evaluations": 0, "distinct": [], "stats": {}, "violations": [], "violation_count": 0}
            elif p.returncode != 0 or not os.path.exists(out):
                print(p.stderr[-3000:], file=sys.stderr)
                sys.exit(p.returncode or 4)
            else:
                x = json.load(open(out))
            R["evaluations"] += x["evaluations"]
            R["distinct"] += x["distinct"]
            for k, v in x["stats"].items():
                stat(k, v)
            R["violations"] += x["violations"]
            R["violation_count"] += x["violation_count"]
    finally:
        if not A.keep:
            shutil.rmtree(work, ignore_errors=True)
    json.dump(R, open(A.out + ".tmp", "w"))
    os.rename(A.out + ".tmp", A.out)


main()
