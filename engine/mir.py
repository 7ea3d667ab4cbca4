"""Loads the MIR dump and computes the loop structure of each body."""
import json


class Fn:
    __slots__ = ("id", "name", "df", "kind", "intr", "targs", "clos", "closure", "empty", "krate", "body",
                 "blocks", "locals", "argc", "spread", "wto", "npred", "names", "span")


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d["types"]
        self.roots = d["roots"]
        self.fns = []
        for i, f in enumerate(d["fns"]):
            x = Fn()
            x.id = i
            x.name = f["name"]
            x.df = f["def"]
            x.kind = f["kind"]
            x.intr = f["intr"]
            x.targs = f["targs"]
            x.clos = f.get("clos") or []
            x.closure = f["closure"]
            x.empty = f["empty"]
            x.krate = f["krate"]
            x.body = f["body"]
            x.wto = None
            if x.body:
                x.blocks = x.body["blocks"]
                x.locals = x.body["locals"]
                x.argc = x.body["argc"]
                x.spread = x.body["spread"]
                x.names = x.body["names"]
                x.span = x.body["span"]
            self.fns.append(x)
        self.cloty = {}
        for x in self.fns:
            ts = [t["t"] for t in x.targs if "t" in t]
            for (k, i), t in zip(x.clos, [t for t in ts if self.types[t]["k"] in ("closure", "fndef")]):
                if k != "fn":
                    self.cloty[t] = i

    def root(self, name):
        return self.fns[self.roots[name]]

    def tname(self, t):
        return self.types[t]["name"]


def succs(b):
    t = b[1]
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        s = [x[1] for x in t[2]]
        s.append(t[3])
        return s
    if k == "drop":
        return [t[2]]
    if k == "assert":
        return [t[4]]
    if k == "call":
        return [t[5]] if t[5] is not None else []
    return []


def assigned(f):
    """locals that are written somewhere in the body"""
    w = set(range(1, f.argc + 1))
    for b in f.blocks:
        if b is None:
            continue
        for s in b[0]:
            if s[0] not in ("dead", "assume"):
                for x in s[1:]:
                    if isinstance(x, list) and len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list):
                        w.add(x[0])
                        break
            # a local whose address is taken may be written through it
            if s[0] == "=" and s[2][0] in ("ref", "addr", "rawptr"):
                w.add(s[2][1][0])
        t = b[1]
        if t[0] == "call":
            w.add(t[4][0])
    return w


def drop_orphans(f, b):
    """the compiler leaves 'assume(discriminant(x) == k)' behind after removing every
    assignment of x (jump threading): such an assumption says nothing"""
    if not any(s[0] == "assume" for s in b[0]):
        return
    w = assigned(f)
    gone = set()
    out = []
    for s in b[0]:
        if s[0] == "=" and s[2][0] == "discr" and s[2][1][0] not in w and s[1][1] == []:
            gone.add(s[1][0])
            continue
        if gone and s[0] == "=" and s[2][0] == "bin" and s[1][1] == [] and any(
                o[k][0] in gone and o[k][1] == [] for o in s[2][2:] for k in ("mv", "cp") if k in o):
            gone.add(s[1][0])
            continue
        if s[0] == "assume" and any(s[1].get(k, [None])[0] in gone for k in ("mv", "cp")):
            continue
        out.append(s)
    if gone:
        b[0][:] = out


def prepare(f):
    """weak topological order: list of block ids or ('loop', head, [elements])"""
    if f.wto is not None:
        return
    blocks = f.blocks
    for b in blocks:
        if b is not None:
            drop_orphans(f, b)
    n = len(blocks)
    succ = [[] if blocks[i] is None else [s for s in succs(blocks[i]) if blocks[s] is not None]
            for i in range(n)]
    npred = [0] * n
    reach = [False] * n
    st = [0]
    reach[0] = True
    while st:
        i = st.pop()
        for s in set(succ[i]):
            npred[s] += 1
            if not reach[s]:
                reach[s] = True
                st.append(s)
    f.npred = npred
    nodes = [i for i in range(n) if reach[i]]
    f.wto = _decompose(nodes, succ, 0)


def _sccs(nodes, succ, inset, entry):
    """Tarjan (iterative); returns SCCs in topological order"""
    index = {}
    low = {}
    onst = set()
    stack = []
    out = []
    cnt = 0
    order = [entry] + [x for x in nodes if x != entry] if entry is not None else nodes
    for root in order:
        if root in index:
            continue
        work = [(root, iter(succ[root]))]
        index[root] = low[root] = cnt
        cnt += 1
        stack.append(root)
        onst.add(root)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in inset:
                    continue
                if w not in index:
                    index[w] = low[w] = cnt
                    cnt += 1
                    stack.append(w)
                    onst.add(w)
                    work.append((w, iter(succ[w])))
                    adv = True
                    break
                elif w in onst:
                    if index[w] < low[v]:
                        low[v] = index[w]
            if adv:
                continue
            work.pop()
            if work:
                u = work[-1][0]
                if low[v] < low[u]:
                    low[u] = low[v]
            if low[v] == index[v]:
                comp = []
                while True:
                    w = stack.pop()
                    onst.discard(w)
                    comp.append(w)
                    if w == v:
                        break
                out.append(comp)
    out.reverse()
    return out


def _decompose(nodes, succ, entry):
    inset = set(nodes)
    res = []
    for comp in _sccs(nodes, succ, inset, entry):
        if len(comp) == 1:
            v = comp[0]
            if v in succ[v]:
                res.append(("loop", v, [v]))
            else:
                res.append(v)
            continue
        cs = set(comp)
        # head: the entry of the component
        heads = set()
        if entry in cs:
            heads.add(entry)
        for u in nodes:
            if u not in cs:
                for s in succ[u]:
                    if s in cs:
                        heads.add(s)
        if len(heads) != 1:
            # entries from outside this node list: reducible MIR has one; fall back to first
            h = min(heads) if heads else comp[-1]
        else:
            h = next(iter(heads))
        sub = [x for x in comp if x != h]
        succ2 = {}
        inner = set(sub)
        # decompose without edges into the head
        first = [s for s in succ[h] if s in inner]
        elems = _decompose2(sub, succ, inner)
        res.append(("loop", h, [h] + elems))
    return res


def _decompose2(nodes, succ, inset):
    res = []
    ext = {}
    for comp in _sccs(nodes, succ, inset, None):
        if len(comp) == 1:
            v = comp[0]
            if v in succ[v]:
                res.append(("loop", v, [v]))
            else:
                res.append(v)
            continue
        cs = set(comp)
        heads = set()
        for u in range(len(succ)):
            if u not in cs:
                for s in succ[u]:
                    if s in cs:
                        heads.add(s)
        h = min(heads) if heads else comp[-1]
        sub = [x for x in comp if x != h]
        res.append(("loop", h, [h] + _decompose2(sub, succ, set(sub))))
    return res
