"""C18: the effect clause `allocates nothing`, checked function by function.

Each function reachable from a root carries the clause; the obligation of a body is
that every call in it goes to a function that carries the clause too.  Functions of
crate core have it by construction (core has no allocator); functions of alloc/std
have it only through their bodies, and one without an exported body, or a primitive of
the allocator, does not have it."""
from terms import Unsupported
from values import Fail
from verify import Out

KEEP = ("drop_in_place", "dealloc", "deallocate")
PRIM = ("__rust_alloc", "__rust_realloc", "__rust_alloc_zeroed", "exchange_malloc", "alloc::alloc::alloc", "alloc::alloc::realloc",
        "alloc::alloc::Global", "box_new")


def noalloc(prog, roots):
    out = Out()
    todo = []
    via = {}
    for r in roots:
        f = prog.root(r)
        via[f.id] = None
        todo.append(f)
    while todo:
        f = todo.pop()
        if f.krate != "vharness":
            out.fns[f.name] = 1
        for b in f.blocks:
            if b is None:
                continue
            for s in b[0]:
                if s[0] == "=" and s[2][0] == "cast" and "Reify" in str(s[2][1]):
                    raise Unsupported("function pointer taken in " + f.name)
            t = b[1]
            if t[0] not in ("call", "tailcall"):
                continue
            if not isinstance(t[1], int):
                raise Unsupported("indirect call in %s: %s" % (f.name, str(t[1])[:80]))
            c = prog.fns[t[1]]
            out.obl += 1
            if c.id not in via:
                via[c.id] = (f.id, t[-1])
                if any(k in c.name for k in PRIM) or c.intr in ("box_new",):
                    bad(prog, via, c)
                if c.body is not None:
                    todo.append(c)
                elif c.krate in ("core", "vharness") or any(k in c.name for k in KEEP):
                    out.assumed.add("does not allocate (crate core): " + c.name[:100])
                else:
                    bad(prog, via, c)
            out.ok += 1
            out.back["effect"] = out.back.get("effect", 0) + 1
    if not out.obl:
        raise Fail("vacuous", "no call reached")
    return out


def bad(prog, via, c):
    path = []
    i = c.id
    while via[i] is not None:
        j, span = via[i]
        path.append("%s (called at %s)" % (prog.fns[i].name[:120], span))
        i = j
    raise Fail("allocates nothing", " <- ".join(path)[:1500])
