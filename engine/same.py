"""Decides that two MIR exports (feature sets) contain the same code below a root, so
that a contract proved for one is proved for the other."""
import json


def canon(prog, f, memo):
    r = memo.get(f.id)
    if r is not None:
        return r
    tn = lambda t: None if t is None else ("T", prog.types[t]["name"], prog.types[t]["k"])
    callees = []

    def place(p):
        return [p[0], [e if not isinstance(e, list) else
                       ["f", e[1], tn(e[2])] if e[0] == "f" else ["o", tn(e[1])] if e[0] == "o" else e for e in p[1]]]

    def op(o):
        out = {}
        for k, v in o.items():
            out[k] = place(v) if k in ("cp", "mv") else tn(v) if k == "ty" else v
        return out

    def rv(r):
        k = r[0]
        if k == "agg":
            a = r[1]
            if a[0] in ("array", "adt", "closure", "rawptr"):
                a = [a[0], tn(a[1])] + a[2:]
            return [k, a, [op(o) for o in r[2]]]
        if k == "cast":
            return [k, r[1], op(r[2]), tn(r[3])]
        return [k] + [op(x) if isinstance(x, dict) else place(x) if isp(x) else x for x in r[1:]]

    def isp(x):
        return isinstance(x, list) and len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list)

    def stmt(s):
        if s[0] == "=":
            return ["=", place(s[1]), rv(s[2])]
        return [s[0]] + [op(x) if isinstance(x, dict) else place(x) if isp(x) else x for x in s[1:]]

    def term(t):
        k = t[0]
        if k == "switch":
            return [k, op(t[1]), t[2], t[3], tn(t[4])]
        if k == "drop":
            return [k, place(t[1]), t[2], tn(t[3]), t[4]]
        if k == "call":
            callees.append(t[1])
            return [k, t[1] is None, op(t[2]), [op(o) for o in t[3]], place(t[4]), t[5]]
        if k == "assert":
            return [k, op(t[1]), t[2], [op(x) if isinstance(x, dict) else x for x in t[3]], t[4]]
        return t
    h = [f.name, f.df, f.kind, f.intr, f.krate, f.closure, f.empty,
         [{"t": tn(a["t"])} if "t" in a else a for a in f.targs], [c[0] for c in f.clos]]
    callees += [c[1] for c in f.clos]
    if f.body is not None:
        h += [f.argc, f.spread, [tn(t) for t in f.locals],
              [None if b is None else [[stmt(s) for s in b[0]], term(b[1])] for b in f.blocks]]
    r = memo[f.id] = (json.dumps(h, sort_keys=True), callees)
    return r


class Same:
    def __init__(self, pa, pb):
        self.pa, self.pb = pa, pb
        self.ma, self.mb = {}, {}
        self.good = {}

    def root(self, name, stop=()):
        """same code below the root; functions whose name ends in one of stop are compared by name only"""
        if name not in self.pa.roots or name not in self.pb.roots:
            return False
        good = self.good.setdefault(stop, set())
        todo = [(self.pa.roots[name], self.pb.roots[name])]
        seen = set()
        while todo:
            p = todo.pop()
            if p in seen or p in good:
                continue
            seen.add(p)
            a, b = p
            if a is None or b is None:
                if a is b:
                    continue
                return False
            fa, fb = self.pa.fns[a], self.pb.fns[b]
            if any(fa.name.split("::<")[0].endswith(s) or fa.df.endswith(s) for s in stop):
                if fa.name != fb.name:
                    return False
                continue
            ca, cb = canon(self.pa, fa, self.ma), canon(self.pb, fb, self.mb)
            if ca[0] != cb[0] or len(ca[1]) != len(cb[1]):
                return False
            todo += list(zip(ca[1], cb[1]))
        good |= seen
        return True
