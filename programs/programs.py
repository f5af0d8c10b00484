"""C03 / C04: generated client programs, judged by a model of brands, proofs,
capabilities and borrows, and by rustc.

A program is a module of safe code (`forbid(unsafe_code)`) against the public
API. A legal history builds up containers and particles; one probe at its end
is legal or not by the model. The oracle: rustc accepts the program exactly if
the model says it is legal. Programs the compiler accepts although the model
forbids them (or the reverse) are compiled once more on their own, minimized
(no noise, shortest derivations) and reported.
"""
import json, os, random, re, subprocess, threading

HERE = os.path.dirname(os.path.abspath(__file__))

# ------------------------------------------------------------ containers

# storage kinds: type text for the item type {T}, capabilities
GET, GETM, CON, CONM, PUSH, FIX, CLO = "get", "getm", "con", "conm", "push", "fix", "clo"
KINDS = {
    "slice": ("&[{T}]", {GET, CON, FIX, CLO}),
    "mutslice": ("&mut [{T}]", {GET, GETM, CON, CONM, FIX}),
    "vec": ("Vec<{T}>", {GET, GETM, CON, CONM, PUSH}),
    "mutvec": ("&mut Vec<{T}>", {GET, GETM, CON, CONM, PUSH}),
    "refvec": ("&Vec<{T}>", {GET, CON}),
    "refmutslice": ("&&mut [{T}]", {GET, CON, FIX, CLO}),
    "mutmutslice": ("&mut &mut [{T}]", {GET, GETM, CON, CONM, FIX}),
    "mutrefslice": ("&mut &[{T}]", {GET, CON, FIX}),
    "fixed": ("Fixed<{T}>", {GET, GETM, CON, CONM, FIX}),
    "mutfixed": ("&mut Fixed<{T}>", {GET, GETM, CON, CONM, FIX}),
    "reffixed": ("&Fixed<{T}>", {GET, CON, FIX, CLO}),
    "grow": ("Grow<{T}>", {GET, GETM, CON, CONM, PUSH}),
    "mutgrow": ("&mut Grow<{T}>", {GET, GETM, CON, CONM, PUSH}),
    "ring": ("Ring<{T}>", {GET, GETM, PUSH}),
    "mutring": ("&mut Ring<{T}>", {GET, GETM, PUSH}),
    "virt": ("Virt", {FIX}),
    "refvirt": ("&Virt", {FIX, CLO}),
}
ITEMS = ["u32", "String", "(u8, u64)"]


def item_of(kind, T):
    return "u64" if "virt" in kind else T


class C:
    """A container in scope."""
    def __init__(self, var, brand, kind, T, mode="()"):
        self.var, self.brand, self.kind, self.T, self.mode = var, brand, kind, item_of(kind, T), mode

    def caps(self):
        s = set(KINDS[self.kind][1])
        s.add("only" if self.mode != "()" else "ptr")
        return s

    def ty(self, life):
        return "Container<'%s, %s, %s>" % (life, KINDS[self.kind][0].replace("{T}", self.T), self.mode)


# ------------------------------------------------------------ operations

# (name, result kind, result proof, [(arg kind, demanded proof)], template, needs)
# proofs: N (non-empty), U (unknown), * (any), =0 (as argument 0), sum, same (as the other)
O = []


def op(name, ret, args, tmpl, needs=""):
    rk, rp = ret.split() if ret else (None, None)
    O.append(dict(name=name, rk=rk, rp=rp, args=[tuple(a.split()) for a in args], tmpl=tmpl, needs=set(needs.split()),
                  mut="mut" in needs.split()))
    O[-1]["needs"].discard("mut")


# any container
op("vet", "I N", [], "{c}.vet(1).unwrap()")
op("vet_range", "R U", [], "{c}.vet_range(0..1).unwrap()")
op("range", "R U", [], "{c}.range()")
op("empty_range", "R U", [], "{c}.empty_range()")
op("split_at.0", "R U", ["I *"], "{c}.split_at({0}).0")
op("split_at.1", "R =0", ["I *"], "{c}.split_at({0}).1")
op("split_after.0", "R N", ["I N"], "{c}.split_after({0}).0")
op("split_after.1", "R U", ["I N"], "{c}.split_after({0}).1")
op("split_around.0", "R U", ["R *"], "{c}.split_around({0}).0")
op("split_around.1", "R U", ["R *"], "{c}.split_around({0}).1")
op("before", "R U", ["I *"], "{c}.before({0})")
op("after", "R U", ["I N"], "{c}.after({0})")
op("range_of(..i)", "R U", ["I *"], "{c}.range_of(..{0})")
op("range_of(i..)", "R U", ["I *"], "{c}.range_of({0}..)")
op("forward", "I N", ["I N"], "{{ let mut t = {0}; let _: bool = {c}.forward(&mut t); t }}")
op("forward_by", "I N", ["I N"], "{{ let mut t = {0}; let _: bool = {c}.forward_by(&mut t, 2); t }}")
op("backward", "I N", ["I N"], "{{ let mut t = {0}; let _: bool = {c}.backward(&mut t); t }}")
op("c.forward_range_by", "R U", ["R *"], "{c}.forward_range_by({0}, 1)")
op("scan_from", "R N", ["I N"], "{c}.scan_from({0}, |_| true)", "con")
op("scan_from_rev", "R N", ["I N"], "{c}.scan_from_rev({0}, |_| true)", "con")
op("scan_range.0", "R U", ["R *"], "{c}.scan_range({0}, |_| true).0", "con")
op("scan_range.1", "R U", ["R *"], "{c}.scan_range({0}, |_| false).1", "con")
# ranges
op("nonempty", "R N", ["R *"], "{0}.nonempty().unwrap()")
op("half.0", "R U", ["R *"], "{0}.split_in_half().0")
op("half.1", "R =0", ["R *"], "{0}.split_in_half().1")
op("r.split_at.0", "R U", ["R *"], "{0}.split_at(1).0")
op("r.split_at.1", "R U", ["R *"], "{0}.split_at(1).1")
op("contains", "I N", ["R *"], "{0}.contains(0).unwrap()")
op("subdivide", "R N", ["R *"], "{0}.subdivide(2).next().unwrap()")
op("join", "R sum", ["R *", "R *"], "{0}.join({1}).unwrap()")
op("join_cover", "R =0", ["R *", "R *"], "{0}.join_cover({1})")
op("join_cover_both", "R sum", ["R *", "R *"], "{0}.join_cover_both({1})")
op("frontiers.0", "R U", ["R *"], "{0}.frontiers().0")
op("frontiers.1", "R U", ["R *"], "{0}.frontiers().1")
op("r.forward_by", "I N", ["R *", "I N"], "{{ let mut t = {1}; let _: bool = {0}.forward_by(&mut t, 2); t }}")
op("r.forward_range_by", "R U", ["R *", "R *"], "{0}.forward_range_by({1}, 1)")
op("r.no_proof", "R U", ["R *"], "{0}.no_proof()")
op("first", "I =0", ["R *"], "{0}.first()")
op("upper_middle", "I =0", ["R *"], "{0}.upper_middle()")
op("past_the_end", "I U", ["R *"], "{0}.past_the_end()")
op("lower_middle", "I N", ["R N"], "{0}.lower_middle()")
op("last", "I N", ["R N"], "{0}.last()")
op("tail", "R U", ["R N"], "{0}.tail()")
op("init", "R U", ["R N"], "{0}.init()")
op("advance_", "R N", ["R N"], "{0}.advance_().unwrap()")
op("advance", "R N", ["R N"], "{{ let mut t = {0}; let _: bool = t.advance(); t }}")
op("advance_by", "R N", ["R N"], "{{ let mut t = {0}; let _: bool = t.advance_by(2); t }}")
op("advance_back", "R N", ["R N"], "{{ let mut t = {0}; let _: bool = t.advance_back(); t }}")
op("iter", "I N", ["R *"], "{0}.into_iter().next().unwrap()")
op("iter_back", "I N", ["R *"], "{0}.into_iter().next_back().unwrap()")
op("iter_rest", "R U", ["R *"], "{0}.into_iter().into_range()")
op("checked", "R N", ["R *"], "indexing::indexing::IntoCheckedRange::into({0}).unwrap()")
# indices
op("i.after", "I U", ["I N"], "{0}.after()")
op("i.no_proof", "I U", ["I *"], "Provable::no_proof({0})")
# pointers: containers
op("pointer_range", "PR U", [], "{c}.pointer_range()", "ptr con")
op("pointer_slice", "PS U", [], "{c}.pointer_slice()", "ptr con")
op("pointer_range_of(..p)", "PR U", ["PI *"], "{c}.pointer_range_of(..{0})", "ptr con")
op("pointer_range_of(p..)", "PR U", ["PI *"], "{c}.pointer_range_of({0}..)", "ptr con")
op("nonempty_range", "PR N", ["PI *", "PI *"], "{c}.nonempty_range({0}, {1}).unwrap()", "ptr con")
op("scan_tail_", "PR =0", ["PI *"], "{c}.scan_tail_({0}, |_| true)", "ptr con")
op("scan_pointer_range.0", "PR U", ["PR *"], "{c}.scan_pointer_range({0}, |_| true).0", "ptr con")
op("scan_pointer_range_rev.1", "PR U", ["PR *"], "{c}.scan_pointer_range_rev({0}, |_| true).1", "ptr con")
op("split_at_pointer.0", "PR U", ["PI *"], "{c}.split_at_pointer({0}).0", "ptr con")
op("split_at_pointer.1", "PR =0", ["PI *"], "{c}.split_at_pointer({0}).1", "ptr con")
op("binary_search_by_prange_", "PI U", ["PR *"], "binary_search_by_prange_({0}, &{c}, |_| Less).err().unwrap()", "ptr con")
op("binary_search_by_pslice_", "PI N", ["PS *"], "binary_search_by_pslice_({0}, &{c}, |_| Equal).ok().unwrap()", "ptr con")
op("lower_bound_prange_", "PI U", ["PR *"], "lower_bound_prange_({0}, &{c}, |_| true)", "ptr con")
op("lower_bound_pslice_", "PI U", ["PS *"], "lower_bound_pslice_({0}, &{c}, |_| true)", "ptr con")
for K in ("PR", "PS"):
    k = K.lower()
    op(k + ".nonempty", K + " N", [K + " *"], "{0}.nonempty().unwrap()")
    op(k + ".half.0", K + " U", [K + " *"], "{0}.split_in_half().0")
    op(k + ".half.1", K + " =0", [K + " *"], "{0}.split_in_half().1")
    op(k + ".first", "PI =0", [K + " *"], "{0}.first()")
    op(k + ".upper_middle", "PI =0", [K + " *"], "{0}.upper_middle()")
    op(k + ".past_the_end", "PI U", [K + " *"], "{0}.past_the_end()")
    op(k + ".last", "PI N", [K + " N"], "{0}.last()")
    op(k + ".tail", K + " U", [K + " N"], "{0}.tail()")
    op(k + ".init", K + " U", [K + " N"], "{0}.init()")
    op(k + ".advance", K + " N", [K + " N"], "{{ let mut t = {0}; let _: bool = t.advance(); t }}")
    op(k + ".advance_back", K + " N", [K + " N"], "{{ let mut t = {0}; let _: bool = t.advance_back(); t }}")
    op(k + ".no_proof", K + " U", [K + " *"], "Provable::no_proof({0})")
op("pr.iter", "PI N", ["PR *"], "{0}.into_iter().next().unwrap()")
op("pr.iter_back", "PI N", ["PR *"], "{0}.into_iter().next_back().unwrap()")
op("pr.iter_rest", "PR U", ["PR *"], "{0}.into_iter().into_range()")
op("pr.into_ps", "PS =0", ["PR *"], "PSlice::from({0})")
op("ps.into_pr", "PR =0", ["PS *"], "PRange::from({0})")
op("pi.after", "PI U", ["PI N"], "{0}.after()")
op("pi.no_proof", "PI U", ["PI *"], "Provable::no_proof({0})")
MAKERS = list(O)
O = []
# uses
op("c[i]", "", ["I N"], "let _ = &{c}[{0}];", "get")
op("c[r]", "", ["R *"], "let _ = &{c}[{0}];", "con")
op("c[i..]", "", ["I *"], "let _ = &{c}[{0}..];", "con")
op("c[..i]", "", ["I *"], "let _ = &{c}[..{0}];", "con")
op("c[..]", "", [], "let _ = &{c}[..];", "con")
op("c[i] = x", "", ["I N"], "{c}[{0}] = Default::default();", "get getm mut")
op("&mut c[i]", "", ["I N"], "let _ = &mut {c}[{0}];", "get getm mut")
op("&mut c[r]", "", ["R *"], "let _ = &mut {c}[{0}];", "con conm mut")
op("&mut c[i..]", "", ["I *"], "let _ = &mut {c}[{0}..];", "con conm mut")
op("&mut c[..i]", "", ["I *"], "let _ = &mut {c}[..{0}];", "con conm mut")
op("&mut c[..]", "", [], "let _ = &mut {c}[..];", "con conm ptr mut")
op("swap", "", ["I N", "I N"], "{c}.swap({0}, {1});", "getm mut")
op("rotate1_up", "", ["R *"], "{c}.rotate1_up({0});", "con getm mut")
op("rotate1_down", "", ["R *"], "{c}.rotate1_down({0});", "con getm mut")
op("index_twice", "", ["R *", "R *"], "let _ = {c}.index_twice({0}, {1});", "conm mut")
op("zip_mut_raw", "", ["R *", "R *"], "{c}.zip_mut_raw({0}, {1}, |_, _| ());", "getm mut")
op("push", "I N", [], "{c}.push(Default::default())", "push only mut")
op("insert", "", ["I *"], "{c}.insert({0}, Default::default());", "push only mut")
op("c[p]", "", ["PI N"], "let _ = &{c}[{0}];", "ptr con")
op("c[pr]", "", ["PR *"], "let _ = &{c}[{0}];", "ptr con")
op("c[p..]", "", ["PI *"], "let _ = &{c}[{0}..];", "ptr con")
op("c[..p]", "", ["PI *"], "let _ = &{c}[..{0}];", "ptr con")
op("&mut c[pr]", "", ["PR *"], "let _ = &mut {c}[{0}];", "ptr con conm mut")
op("&mut c[p..]", "", ["PI *"], "let _ = &mut {c}[{0}..];", "ptr con conm mut")
op("&mut c[..p]", "", ["PI *"], "let _ = &mut {c}[..{0}];", "ptr con conm mut")
op("swap_ptr", "", ["PI N", "PI N"], "{c}.swap_ptr({0}, {1});", "ptr conm mut")
op("rotate1_prange", "", ["PR N"], "{c}.rotate1_prange({0});", "ptr conm mut")
op("split_container", "", ["PI *"], "{c}.split_container_at_pointer({0}, |_, _, _, _| ());", "ptr conm mut")
op("distance_to", "", ["PI *"], "let _ = {c}.distance_to({0});", "ptr con")
op("clone", "", [], "let _: Container<'_, _, _> = {c}.clone();", "fix clo")
op("i == j", "", ["I *", "I *"], "let _ = {0} == {1};")
op("i < j", "", ["I *", "I *"], "let _ = {0} < {1};")
op("r == s", "", ["R *", "R *"], "let _ = {0} == {1};")
op("r >= s", "", ["R *", "R *"], "let _ = {0} >= {1};")
op("pr == ps", "", ["PR *", "PR *"], "let _ = {0} == {1};")
op("ps == ps", "", ["PS *", "PS *"], "let _ = {0} == {1};")
USES = list(O)
BYNAME = {o["name"]: o for o in MAKERS + USES}

BASE = {
    ("I", "N"): "{c}.vet(0).unwrap()", ("I", "U"): "{c}.range().first()",
    ("R", "U"): "{c}.range()", ("R", "N"): "{c}.range().nonempty().unwrap()",
    ("PI", "N"): "{c}.pointer_range().nonempty().unwrap().first()", ("PI", "U"): "{c}.pointer_range().first()",
    ("PR", "U"): "{c}.pointer_range()", ("PR", "N"): "{c}.pointer_range().nonempty().unwrap()",
    ("PS", "U"): "{c}.pointer_slice()", ("PS", "N"): "{c}.pointer_slice().nonempty().unwrap()",
}
PTY = {"N": "NonEmpty", "U": "Unknown"}


def pty(kind, proof, life, T):
    """Type text of a particle."""
    if kind == "I":
        return "Index<'%s, %s>" % (life, PTY[proof])
    if kind == "R":
        return "Range<'%s, %s>" % (life, PTY[proof])
    return {"PI": "PIndex", "PR": "PRange", "PS": "PSlice"}[kind] + "<'%s, %s, %s>" % (life, T, PTY[proof])


def is_ptr(kind):
    return kind.startswith("P")


def uses_container(o):
    return "{c}" in o["tmpl"]


class Gen:
    """Emits statements; `depth` bounds derivation chains, `noise` adds unrelated legal steps."""
    def __init__(self, rng, depth, noise):
        self.rng, self.depth, self.noise, self.n = rng, depth, noise, 0
        self.lines = []

    def var(self, p="x"):
        self.n += 1
        return "%s%d" % (p, self.n)

    def proof(self):
        return self.rng.choice("NU")

    def result(self, o, proofs):
        if o["rp"] == "=0":
            return proofs[0]
        if o["rp"] == "sum":
            return "N" if "N" in proofs else "U"
        return o["rp"]

    def make(self, c, kind, proof, depth=None):
        """Statements that leave a particle of container `c` in a new variable."""
        depth = self.depth if depth is None else depth
        v = self.var()
        if depth > 0 and self.rng.random() < 0.8:
            cand = []
            for o in MAKERS:
                if o["rk"] != kind or o["needs"] - c.caps():
                    continue
                if o["rp"] in ("=0", "sum") or o["rp"] == proof:
                    cand.append(o)
            o = self.rng.choice(cand)
            proofs = [a[1] if a[1] != "*" else self.proof() for a in o["args"]]
            if o["rp"] == "=0":
                proofs[0] = proof
            elif o["rp"] == "sum":
                proofs = ["U", "U"] if proof == "U" else self.rng.choice([["N", "U"], ["U", "N"], ["N", "N"]])
            args = [self.make(c, a[0], p, depth - 1) for a, p in zip(o["args"], proofs)]
            e = o["tmpl"].format(*args, c=c.var)
        else:
            e = BASE[kind, proof].format(c=c.var)
        self.lines.append("let %s = %s;" % (v, e))
        return v

    def add_noise(self, c):
        """Legal steps that have nothing to do with the probe."""
        for _ in range(self.rng.randrange(self.noise + 1)):
            cand = [o for o in MAKERS + USES if not (o["needs"] - c.caps()) and not o["mut"]]
            o = self.rng.choice(cand)
            if any(is_ptr(a[0]) and not {"ptr", CON} <= c.caps() for a in o["args"]):
                continue
            args = [self.make(c, a[0], a[1] if a[1] != "*" else self.proof(), 1) for a in o["args"]]
            s = o["tmpl"].format(*args, c=c.var)
            self.lines.append(s if not o["rk"] else "let _ = %s;" % s)


def proofs_for(rng, o):
    """Legal proofs for the arguments."""
    return [a[1] if a[1] != "*" else rng.choice("NU") for a in o["args"]]


def stmt(o, text):
    return text if not o["rk"] else "let _ = %s;" % text


def kinds_with(rng, needs, want_ptr=False):
    """A storage kind that has the capabilities."""
    n = needs & {GET, GETM, CON, CONM, PUSH, FIX, CLO}
    if want_ptr:
        n = n | {CON}
    ok = [k for k in KINDS if n <= KINDS[k][1]]
    return rng.choice(ok)


def param(name, kind, T):
    return "%s: %s" % (name, KINDS[kind][0].replace("{T}", item_of(kind, T)))


def scope_open(g, arg, c, mode_switch=True):
    g.lines.append("scope(%s, |mut %s| {" % (arg, c.var))
    if c.mode != "()":
        g.lines.append("let mut %s = %s.only_index();" % (c.var, c.var))


# ------------------------------------------------------------ C03 families

def brand_ops():
    out = []
    for o in MAKERS + USES:
        n = len(o["args"]) + (1 if uses_container(o) else 0)
        if n >= 2:
            out.append(o)
    return out


BRAND_OPS = brand_ops()


def fam_scoped(p, depth, noise):
    """An operation whose operands come from one or several scopes."""
    rng = random.Random(p["seed"])
    g = Gen(rng, depth, noise)
    o = BYNAME[p["op"]]
    T = p["T"]
    form = p["form"]
    proofs, brands, cb = p["proofs"], p["brands"], p["cb"]
    kinds = p["kinds"]
    mode = "OnlyIndex" if "only" in o["needs"] else "()"
    cs = []
    vs = {}

    def particles(b):
        for i, a in enumerate(o["args"]):
            if brands[i] == b:
                vs[i] = g.make(cs[b], a[0], proofs[i])

    if form == "nested":
        params = ", ".join(param("d%d" % i, kinds[i], T) for i in range(len(kinds)))
        for i, k in enumerate(kinds):
            c = C("c%d" % i, i, k, T, mode)
            cs.append(c)
            scope_open(g, "d%d" % i, c)
            g.add_noise(c)
            if rng.random() < 0.5:
                particles(i)
        for b in range(len(kinds)):
            if any(i not in vs for i in range(len(o["args"])) if brands[i] == b):
                particles(b)
        probe = [stmt(o, o["tmpl"].format(*[vs[i] for i in range(len(o["args"]))], c="c%d" % cb))]
        g.lines += probe
        g.lines += ["});"] * len(kinds)
    elif form == "reborrow":
        # the inner scope is over data borrowed from the outer container
        params = param("d0", kinds[0], T)
        c0, c1 = C("c0", 0, kinds[0], T), C("c1", 1, p["inner"], T, mode)
        cs = [c0, c1]
        scope_open(g, "d0", c0)
        g.add_noise(c0)
        particles(0)
        if rng.random() < 0.5:
            arg = "%s%s[..]" % ("&mut " if p["inner"] == "mutslice" else "&", "c0")
        else:
            r = g.make(c0, "R", "U")
            arg = "%s%s[%s]" % ("&mut " if p["inner"] == "mutslice" else "&", "c0", r)
        scope_open(g, arg, c1)
        particles(1)
        g.lines.append(stmt(o, o["tmpl"].format(*[vs[i] for i in range(len(o["args"]))], c="c1")))
        g.lines += ["});", "});"]
    else:
        # the halves of a container split at a pointer
        params = param("d0", kinds[0], T)
        c0 = C("c0", 0, kinds[0], T)
        cs = [c0, C("c1", 1, "mutslice", T), C("c2", 2, "mutslice", T)]
        scope_open(g, "d0", c0)
        particles(0)
        at = g.make(c0, "PI", g.proof())
        g.lines.append("c0.split_container_at_pointer(%s, |mut c1, r1, mut c2, r2| {" % at)
        particles(1)
        particles(2)
        g.lines.append(stmt(o, o["tmpl"].format(*[vs[i] for i in range(len(o["args"]))], c="c%d" % max(cb, 1))))
        g.lines += ["});", "});"]
    return "fn p(%s) {\n%s\n}" % (params.replace("d0:", "mut d0:") if False else params, "\n".join(g.lines))


def rand_scoped(rng):
    o = rng.choice(BRAND_OPS)
    form = rng.choice(["nested"] * 5 + ["reborrow", "split"])
    ptr = any(is_ptr(a[0]) for a in o["args"])
    nargs = len(o["args"])
    T = rng.choice(ITEMS)
    if form == "nested":
        n = rng.choice([2, 2, 2, 3])
        kinds = [kinds_with(rng, o["needs"], ptr) for _ in range(n)]
        if rng.random() < 0.4:
            kinds = [kinds[0]] * n
        if any("virt" in k for k in kinds):
            kinds = [k if "virt" in k else "virt" for k in kinds]
    elif form == "reborrow":
        n = 2
        if "only" in o["needs"] or "push" in o["needs"]:
            return rand_scoped(rng)
        inner = "mutslice" if o["needs"] & {GETM, CONM} else rng.choice(["slice", "mutslice"])
        if o["needs"] & {CLO}:
            inner = "slice"
        kinds = [kinds_with(rng, {CON, CONM} if inner == "mutslice" else {CON}, True)]
        if inner == "mutslice":
            # the outer container is not usable in there
            pass
    else:
        if "only" in o["needs"] or "push" in o["needs"] or CLO in o["needs"]:
            return rand_scoped(rng)
        n = 3
        kinds = [kinds_with(rng, {CON, CONM}, True)]
    legal = rng.random() < 0.45
    b0 = rng.randrange(n)
    hasc = uses_container(o)
    if form != "nested" and hasc:
        b0 = max(b0, 1)
    brands = [b0] * nargs
    cb = b0
    if not legal:
        # give one operand (or the container) a different brand
        slots = list(range(nargs)) + (["c"] if hasc and form == "nested" else [])
        s = rng.choice(slots)
        other = rng.choice([b for b in range(n) if b != b0])
        if s == "c":
            cb = other
        else:
            brands[s] = other
        if rng.random() < 0.3:
            for i in range(nargs):
                if rng.random() < 0.3:
                    brands[i] = rng.randrange(n)
    ids = set(brands) | ({cb} if hasc else set())
    p = dict(fam="scoped", op=o["name"], form=form, kinds=kinds, T=T, proofs=proofs_for(rng, o), brands=brands, cb=cb,
             seed=rng.randrange(1 << 30))
    if form == "reborrow":
        p["inner"] = inner
    p["legal"] = len(ids) == 1
    return p


def fam_fn(p, depth, noise):
    """The same with the operands as parameters of a function."""
    o = BYNAME[p["op"]]
    T = p["T"]
    ps = []
    lives = p["lives"]
    mode = "OnlyIndex" if "only" in o["needs"] else "()"
    if uses_container(o):
        c = C("c", 0, p["kind"], T, mode)
        ps.append("c: %s%s" % ("&mut " if o["mut"] else "&", c.ty(lives[-1])))
        T = c.T
    for i, a in enumerate(o["args"]):
        ps.append("x%d: %s" % (i, pty(a[0], p["proofs"][i], lives[i], T)))
    call = o["tmpl"].format(*["x%d" % i for i in range(len(o["args"]))], c="(*c)" if False else "c").replace("&c,", "c,")
    names = sorted(set(lives))
    bounds = ["'%s: '%s" % b for b in p["bounds"]]
    where = " where " + ", ".join(bounds) if bounds else ""
    return "fn p<%s>(%s)%s {\n%s\n}" % (", ".join("'" + n for n in names), ", ".join(ps), where, stmt(o, call))


def rand_fn(rng):
    o = rng.choice(BRAND_OPS)
    ptr = any(is_ptr(a[0]) for a in o["args"])
    n = len(o["args"]) + (1 if uses_container(o) else 0)
    kind = kinds_with(rng, o["needs"], ptr)
    lives = ["a"] * n
    legal = rng.random() < 0.4
    bounds = []
    if not legal:
        lives[rng.randrange(n)] = "b"
        bounds = rng.choice([[], [("a", "b")], [("b", "a")]])
    elif rng.random() < 0.3:
        # two names for one lifetime
        lives[rng.randrange(n)] = "b"
        bounds = [("a", "b"), ("b", "a")]
    used = set(lives)
    bounds = [b for b in bounds if set(b) <= used]
    return dict(fam="fn", op=o["name"], kind=kind, T=rng.choice(ITEMS), proofs=proofs_for(rng, o), lives=lives,
                bounds=bounds, legal=len(used) == 1 or len(bounds) == 2)


# escaping and changing brands: (statements in the scope, expression)
BRANDED = [("I", "N"), ("I", "U"), ("R", "N"), ("R", "U"), ("PI", "N"), ("PI", "U"), ("PR", "N"), ("PR", "U"), ("PS", "N"),
           ("PS", "U")]
DERIVED = {  # further branded things made of a range
    "iter": ("R", "U", "{0}.into_iter()"), "subdivide": ("R", "U", "{0}.subdivide(2)"), "piter": ("PR", "U", "{0}.into_iter()"),
    "pair": ("R", "N", "({0}, 1)"), "some": ("I", "N", "Some({0})"), "boxed": ("I", "N", "Box::new({0})"),
    "vec": ("R", "U", "vec![{0}]"), "res": ("R", "U", "{0}.nonempty()"),
}


def branded_value(g, c, what):
    if what in DERIVED:
        k, pr, e = DERIVED[what]
        return e.format(g.make(c, k, pr))
    return g.make(c, what[0], what[1])


def fam_escape(p, depth, noise):
    rng = random.Random(p["seed"])
    g = Gen(rng, depth, noise)
    T = p["T"]
    what = p["what"] if isinstance(p["what"], str) else tuple(p["what"])
    legal = p["legal"]
    how = p["how"]
    pre, post = [], []
    outer = None
    if how.startswith("inner"):
        # out of a nested scope into the surrounding one
        outer = C("c9", 9, p["kind"], T)
        g.lines.append("scope(d9, |c9| {")
        how = how[6:]
    c = C("c0", 0, p["kind"], T)
    head = {"return": "let _ = scope(d0, |mut c0| {", "store": "let mut out = None;\nscope(d0, |mut c0| {",
            "push": "let mut out = Vec::new();\nscope(d0, |mut c0| {",
            "replace": "let mut out = None;\nscope(d0, |mut c0| {", "cell": "let out = std::cell::RefCell::new(None);\nscope(d0, |mut c0| {",
            "static": "scope(d0, |mut c0| {"}[how]
    g.lines.append(head)
    g.add_noise(c)
    if what == "container":
        v = {0: "c0", 1: "c0.only_index()"}[rng.randrange(2)]
        ok = "c0.len()"
    else:
        v = branded_value(g, c, what)
        ok = "{ let _ = %s; c0.len() }" % v
    e = ok if legal else v
    if how == "return":
        g.lines += [e, "});"]
    elif how == "store":
        g.lines += ["out = Some(%s);" % e, "});"]
    elif how == "push":
        g.lines += ["out.push(%s);" % e, "});"]
    elif how == "replace":
        g.lines += ["let _ = std::mem::replace(&mut out, Some(%s));" % e, "});"]
    elif how == "cell":
        g.lines += ["*out.borrow_mut() = Some(%s);" % e, "});"]
    elif how == "static":
        g.lines += ["fn keep<X: 'static>(_: X) {}", "keep(%s);" % e, "});"]
    ps = [param("d0", p["kind"], T)]
    if outer:
        g.lines.append("});")
        ps.append(param("d9", p["kind"], T))
    return "fn p(%s) {\n%s\n}" % (", ".join(ps), "\n".join(g.lines))


def rand_escape(rng):
    what = rng.choice(BRANDED + list(DERIVED) + ["container"] * 2)
    ptr = what in ("piter",) or (isinstance(what, tuple) and is_ptr(what[0]))
    how = rng.choice(["return", "store", "push", "replace", "cell", "static", "inner return", "inner store", "inner push"])
    kind = rng.choice([k for k in KINDS if CON in KINDS[k][1]]) if ptr else rng.choice(list(KINDS))
    return dict(fam="escape", what=what, how=how, kind=kind, T=rng.choice(ITEMS), legal=rng.random() < 0.35,
                seed=rng.randrange(1 << 30))


WRAPS = ["{X}", "{X}", "{X}", "&'r {X}", "&'r mut {X}", "Box<{X}>", "Vec<{X}>", "Option<{X}>", "({X}, u8)", "fn({X})", "[{X}; 2]"]


def branded_types(T="u32"):
    out = []
    for k, pr in BRANDED:
        out.append(lambda l, k=k, pr=pr: pty(k, pr, l, T))
    out.append(lambda l: "RangeIter<'%s>" % l)
    out.append(lambda l: "Subdivide<'%s>" % l)
    out.append(lambda l: "PRangeIter<'%s, %s>" % (l, T))
    for k in KINDS:
        for m in ("()", "OnlyIndex"):
            out.append(lambda l, k=k, m=m: C("c", 0, k, T, m).ty(l))
    return out


TYPES = branded_types()


def fam_convert(p, depth, noise):
    """Changing the brand of a value by subtyping."""
    w = WRAPS[p["wrap"]]
    X = TYPES[p["ty"]]
    a, b = w.replace("{X}", X("a")), w.replace("{X}", X(p["to"]))
    bounds = ["'%s: '%s" % tuple(x) for x in p["bounds"]]
    where = " where " + ", ".join(bounds) if bounds else ""
    lives = ["'a"] + (["'b"] if "b" in (p["to"],) or any("b" in x for x in p["bounds"]) else []) + (["'r"] if "'r" in w else [])
    body = {0: "x", 1: "let y: %s = x; y" % b, 2: "let f = |z: %s| -> %s { z }; f(x)" % (b, b)}[p["via"]]
    # elided lifetimes of the storage would be fresh in either type
    for k in ("&mut ", "&"):
        a, b, body = [re.sub(r"&(?!'r)", "&'s ", t) for t in (a, b, body)]
    a, b, body = [re.sub(r"&('s )+", "&'s ", t) for t in (a, b, body)]
    if "'s" in a:
        lives.append("'s")
    return "fn p<%s>(x: %s) -> %s%s { %s }" % (", ".join(lives), a, b, where, body)


def rand_convert(rng):
    t = rng.randrange(len(TYPES)) if rng.random() < 0.4 else rng.randrange(13)
    to, bounds = rng.choice([("b", [("a", "b")]), ("b", [("b", "a")]), ("b", []), ("static", []), ("b", [("a", "b"), ("b", "a")]),
                             ("a", []), ("b", [("a", "b"), ("b", "a")])])
    return dict(fam="convert", ty=t, wrap=rng.randrange(len(WRAPS)), to=to, bounds=bounds, via=rng.randrange(2),
                legal=to == "a" or len(bounds) == 2)


UNIFY = [  # (what, needs the same particle types)
    "let _ = if {b} {{ {0} }} else {{ {1} }};", "let _ = [{0}, {1}];", "let mut v = vec![{0}]; v.push({1});",
    "let mut t = {0}; let _ = t; t = {1}; let _ = t;", "let mut t = {0}; let mut u = {1}; std::mem::swap(&mut t, &mut u);",
    "let _ = match {b} {{ true => Some({0}), false => Some({1}) }};", "fn same<X>(_: X, _: X) {{}} same({0}, {1});",
    "let mut t = Some({0}); let _ = t.take(); t = Some({1}); let _ = t;", "let mut f = |_x| (); f({0}); f({1});",
    "fn same<'i>(_: {ty}, _: {ty}) {{}} same({0}, {1});", "struct S<'i> {{ _a: {ty}, _b: {ty} }} let _ = S {{ _a: {0}, _b: {1} }};",
    "let c = std::cell::Cell::new({0}); c.set({1});",
]
UNIFY_C = [
    "std::mem::swap(&mut {0}, &mut {1});", "let _ = if {b} {{ {0} }} else {{ {1} }};", "{0} = {1};",
    "let _ = [&{0}, &{1}];", "fn same<X>(_: &X, _: &X) {{}} same(&{0}, &{1});",
    "fn same<'i, A>(_: &Container<'i, A>, _: &Container<'i, A>) {{}} same(&{0}, &{1});",
]


def fam_unify(p, depth, noise):
    """Values of two scopes where one type is demanded."""
    rng = random.Random(p["seed"])
    g = Gen(rng, depth, noise)
    T = p["T"]
    cs = [C("c%d" % i, i, p["kind"], T) for i in range(2)]
    for i in range(2):
        scope_open(g, "d%d" % i, cs[i])
        g.add_noise(cs[i])
    if p["what"] == "container":
        a, b = "c0", "c1" if not p["legal"] else "c2"
        if p["legal"]:
            g.lines.append("let mut c2 = c0.clone();")
        ty = ""
        tm = UNIFY_C[p["how"]]
    else:
        k, pr = p["what"]
        a = g.make(cs[0], k, pr)
        b = g.make(cs[0 if p["legal"] else 1], k, pr)
        ty = pty(k, pr, "i", T)
        tm = UNIFY[p["how"]]
    g.lines.append(tm.format(a, b, b="c0.len() == 1", ty=ty))
    g.lines += ["});", "});"]
    return "fn p(%s) {\n%s\n}" % (", ".join(param("d%d" % i, p["kind"], T) for i in range(2)), "\n".join(g.lines))


def rand_unify(rng):
    T = rng.choice(ITEMS)
    legal = rng.random() < 0.35
    if rng.random() < 0.25:
        # containers of one type; a clone has the same brand
        return dict(fam="unify", what="container", how=rng.randrange(len(UNIFY_C)), T=T, legal=legal,
                    kind="slice" if legal else rng.choice([k for k in KINDS if "virt" not in k]), seed=rng.randrange(1 << 30))
    what = rng.choice(BRANDED)
    kind = rng.choice([k for k in KINDS if CON in KINDS[k][1]])
    return dict(fam="unify", what=what, how=rng.randrange(len(UNIFY)), T=T, kind=kind, legal=legal, seed=rng.randrange(1 << 30))


def fam_zip(p, depth, noise):
    """zip: each range belongs to its own container."""
    rng = random.Random(p["seed"])
    g = Gen(rng, depth, noise)
    T = p["T"]
    cs = [C("c%d" % i, i, k, T) for i, k in enumerate(p["kinds"])]
    for c in cs:
        scope_open(g, "d%d" % c.brand, c)
    r = [g.make(cs[b], k, pr) for b, (k, pr) in zip(p["brands"], p["rs"])]
    refs = ["&mut " if m else "&" for m in p["muts"]]
    g.lines.append("zip(%s, %sc%d, %s, %sc%d, |_, _| ());" % (r[0], refs[0], p["cs"][0], r[1], refs[1], p["cs"][1]))
    g.lines += ["});"] * len(cs)
    return "fn p(%s) {\n%s\n}" % (", ".join(param("d%d" % i, k, T) for i, k in enumerate(p["kinds"])), "\n".join(g.lines))


def rand_zip(rng):
    muts = [rng.random() < 0.5, rng.random() < 0.5]
    kinds = [kinds_with(rng, {CON, CONM} if m else {CON}, True) for m in muts]
    cs = [0, 1]
    brands = [0, 1]
    if rng.random() < 0.6:
        brands = rng.choice([[1, 0], [0, 0], [1, 1]])
    return dict(fam="zip", kinds=kinds, muts=muts, cs=cs, brands=brands, T=rng.choice(ITEMS),
                rs=[(rng.choice(["PR", "PS"]), rng.choice("NU")) for _ in range(2)], legal=brands == cs, seed=rng.randrange(1 << 30))


def fam_twin03(p, depth, noise):
    """A twin accepts the particles of its own family only."""
    rng = random.Random(p["seed"])
    g = Gen(rng, depth, noise)
    T = p["T"]
    cs = [C("c0", 0, p["kind"], T), C("c1", 1, p["kind2"], T)]
    scope_open(g, "d0", cs[0])
    scope_open(g, "d1", cs[1])
    t = C("tw", p["of"], "mutslice", "i16", "OnlyIndex")
    g.lines.append("let mut tw = c%d.make_twin(d2).unwrap();" % p["of"])
    o = BYNAME[p["op"]]
    args = [g.make(cs[b], a[0], pr) for b, a, pr in zip(p["brands"], o["args"], p["proofs"])]
    g.lines.append(stmt(o, o["tmpl"].format(*args, c="tw")))
    g.lines += ["});", "});"]
    return "fn p(%s, %s, d2: &mut [i16]) {\n%s\n}" % (param("d0", p["kind"], T), param("d1", p["kind2"], T), "\n".join(g.lines))


def rand_twin03(rng):
    caps = KINDS["mutslice"][1] | {"only"}
    ops = [o for o in BRAND_OPS if uses_container(o) and not (o["needs"] - caps) and not any(is_ptr(a[0]) for a in o["args"])]
    o = rng.choice(ops)
    of = rng.randrange(2)
    brands = [of] * len(o["args"])
    if rng.random() < 0.6:
        brands[rng.randrange(len(brands))] = 1 - of
    fixed = [k for k in KINDS if FIX in KINDS[k][1] and "virt" not in k]
    return dict(fam="twin03", op=o["name"], of=of, brands=brands, proofs=proofs_for(rng, o), kind=rng.choice(fixed),
                kind2=rng.choice(fixed), T=rng.choice(ITEMS), legal=set(brands) == {of}, seed=rng.randrange(1 << 30))


# ------------------------------------------------------------ C04 families

def fam_single(p, depth, noise):
    """One operation on one container; a capability or a proof may be missing."""
    rng = random.Random(p["seed"])
    g = Gen(rng, depth, noise)
    o = BYNAME[p["op"]]
    T = p["T"]
    c = C("c0", 0, p["kind"], T, p["mode"])
    if p["form"] == "fn":
        ps, lines = [], []
        if uses_container(o):
            ps.append("c: %s%s" % ("&mut " if p["mutref"] else "&", c.ty("a")))
        for i, a in enumerate(o["args"]):
            ps.append("x%d: %s" % (i, pty(a[0], p["proofs"][i], "a", c.T)))
        call = o["tmpl"].format(*["x%d" % i for i in range(len(o["args"]))], c="c").replace("&c,", "c,")
        return "fn p<'a>(%s) {\n%s\n}" % (", ".join(ps), stmt(o, call))
    # pointers come from before the container became index-only
    early = C("c0", 0, p["kind"], T)
    g.lines.append("scope(d0, |%sc0| {" % ("mut " if True else ""))
    vs = []
    for a, pr in zip(o["args"], p["proofs"]):
        if is_ptr(a[0]) or rng.random() < 0.5:
            vs.append(g.make(early, a[0], pr))
        else:
            vs.append(None)
    if p["mode"] != "()":
        g.lines.append("let mut c0 = c0.only_index();")
    g.add_noise(c)
    for i, (a, pr) in enumerate(zip(o["args"], p["proofs"])):
        if vs[i] is None:
            vs[i] = g.make(c, a[0], pr)
    if p["form"] == "ref":
        g.lines.append("let c0 = &%sc0;" % ("mut " if p["mutref"] else ""))
    g.lines.append(stmt(o, o["tmpl"].format(*vs, c="c0").replace("&c0,", "c0," if p["form"] == "ref" else "&c0,")))
    g.lines.append("});")
    return "fn p(%s) {\n%s\n}" % (param("d0", p["kind"], T), "\n".join(g.lines))


def rand_single(rng, focus=None):
    focus = focus or rng.choice(["legal", "proof", "proof", "caps", "caps", "caps", "shared", "mode"])
    if focus == "proof":
        ops = [o for o in MAKERS + USES if any(a[1] == "N" for a in o["args"])]
    elif focus == "shared":
        ops = [o for o in USES if o["mut"]]
    elif focus == "mode":
        ops = [o for o in MAKERS + USES if o["needs"] & {"only", "ptr"} and o["name"] != "&mut c[..]"]
    elif focus == "caps":
        ops = [o for o in MAKERS + USES if o["needs"] & {GET, GETM, CON, CONM, PUSH, FIX, CLO}]
    else:
        ops = MAKERS + USES
    o = rng.choice(ops)
    ptr = any(is_ptr(a[0]) for a in o["args"]) or "ptr" in o["needs"]
    kind = kinds_with(rng, o["needs"], ptr)
    mode = "OnlyIndex" if "only" in o["needs"] else ("()" if ptr else rng.choice(["()", "OnlyIndex"]))
    proofs = proofs_for(rng, o)
    form = rng.choice(["fn", "scope", "scope", "ref"])
    mutref = o["mut"] or rng.random() < 0.5
    if focus == "proof":
        i = rng.choice([i for i, a in enumerate(o["args"]) if a[1] == "N"])
        proofs[i] = "U"
    elif focus == "shared":
        mutref = False
        form = rng.choice(["fn", "ref"])
    elif focus == "mode":
        mode = "()" if mode != "()" else "OnlyIndex"
    elif focus == "caps":
        miss = rng.choice(sorted(o["needs"] & {GET, GETM, CON, CONM, PUSH, FIX, CLO}))
        bad = [k for k in KINDS if miss not in KINDS[k][1]]
        # where another storage with the rest of the needs exists, use that
        rest = (o["needs"] & {GET, GETM, CON, CONM, PUSH, FIX, CLO}) - {miss}
        closest = [k for k in bad if rest <= KINDS[k][1]]
        kind = rng.choice(closest or bad)
    if ptr and CON not in KINDS[kind][1]:
        form = "fn"      # pointers of such containers cannot be made
    c = C("c0", 0, kind, "u32", mode)
    if form == "fn" and not uses_container(o):
        mutref = True
    missing = o["needs"] - c.caps() if uses_container(o) else set()
    demanded = all(a[1] == "*" or a[1] == q for a, q in zip(o["args"], proofs))
    legal = not missing and demanded and (mutref or not o["mut"] or form == "scope")
    return dict(fam="single", op=o["name"], focus=focus, kind=kind, mode=mode, proofs=proofs, form=form, mutref=mutref,
                T=rng.choice(ITEMS), legal=legal, seed=rng.randrange(1 << 30))


def fam_ascribe(p, depth, noise):
    """What an operation returns, used with a stated type."""
    o = BYNAME[p["op"]]
    c = C("c0", 0, p["kind"], p["T"], p["mode"])
    ps = []
    if uses_container(o):
        ps.append("c: &mut " + c.ty("a"))
    for i, a in enumerate(o["args"]):
        ps.append("x%d: %s" % (i, pty(a[0], p["proofs"][i], "a", c.T)))
    call = o["tmpl"].format(*["x%d" % i for i in range(len(o["args"]))], c="c").replace("&c,", "c,")
    t = pty(o["rk"], p["want"], "a", c.T)
    if p["form"] == "return":
        return "fn p<'a>(%s) -> %s {\n%s\n}" % (", ".join(ps), t, call)
    return "fn p<'a>(%s) {\nlet _: %s = %s;\n}" % (", ".join(ps), t, call)


def ascribe(rng, o, proofs, want, form):
    ptr = any(is_ptr(a[0]) for a in o["args"]) or "ptr" in o["needs"] or is_ptr(o["rk"])
    kind = kinds_with(rng, o["needs"], ptr)
    got = proofs[0] if o["rp"] == "=0" else ("N" if "N" in proofs else "U") if o["rp"] == "sum" else o["rp"]
    return dict(fam="ascribe", op=o["name"], kind=kind, mode="OnlyIndex" if "only" in o["needs"] else "()", proofs=proofs, want=want,
                form=form, T="u32", legal=got == want)


def rand_ascribe(rng):
    o = rng.choice([o for o in MAKERS + USES if o["rk"]])
    return ascribe(rng, o, proofs_for(rng, o), rng.choice("NU"), rng.choice(["let", "return"]))


# twin data: (type, expression usable once, fixed length?)
def fam_twin(p, depth, noise):
    rng = random.Random(p["seed"])
    g = Gen(rng, depth, noise)
    T = p["T"]
    c = C("c0", 0, p["kind"], T, p["mode"])
    scope_open(g, "d0", c)
    g.add_noise(c)
    x = None
    o = BYNAME[p["op"]] if p["op"] else None
    vs = [g.make(c, a[0], pr) for a, pr in zip(o["args"], p["proofs"])] if o else []
    g.lines.append("let mut tw = c0.make_twin(d1).unwrap();")
    if o:
        g.lines.append(stmt(o, o["tmpl"].format(*vs, c="tw")))
    g.lines.append("});")
    return "fn p(%s, %s) {\n%s\n}" % (param("d0", p["kind"], T), param("d1", p["kind2"], p["T2"]), "\n".join(g.lines))


def rand_twin(rng):
    kind, kind2 = rng.choice(list(KINDS)), rng.choice(list(KINDS))
    mode = rng.choice(["()", "OnlyIndex"])
    T, T2 = rng.choice(ITEMS), rng.choice(ITEMS)
    fixed = [k for k in KINDS if FIX in KINDS[k][1]]
    o, proofs = None, []
    r = rng.random()
    legal = FIX in KINDS[kind][1] and FIX in KINDS[kind2][1]
    if r < 0.7:
        # both are fine; the probe is an operation on the twin
        kind, kind2 = rng.choice(fixed), rng.choice(fixed)
        twin = C("tw", 0, kind2, T2, "OnlyIndex")
        if r < 0.4:
            # pointers of the family do not work on twins, nor does the twin give any
            mode = "()"
            kind = rng.choice([k for k in fixed if CON in KINDS[k][1]])
            T2 = T
            cand = [o for o in MAKERS + USES if uses_container(o) and "ptr" in o["needs"] and o["name"] != "&mut c[..]"]
            o = rng.choice(cand)
        else:
            cand = [o for o in MAKERS + USES if uses_container(o) and not (o["needs"] & {"ptr"}) and not any(is_ptr(a[0]) for a in o["args"])]
            o = rng.choice(cand)
        proofs = proofs_for(rng, o)
        legal = not (o["needs"] - twin.caps())
    return dict(fam="twin", op=o and o["name"], proofs=proofs, kind=kind, kind2=kind2, mode=mode, T=T, T2=T2, legal=legal,
                seed=rng.randrange(1 << 30))


# borrows: what is held, and what is done while it is held
HOLD_S = ["let h = &{c}[{i}];", "let h = &{c}[{r}];", "let h = &{c}[{i}..];", "let h = &{c}[..{e}];", "let h = &{c}[..];", "let h = &{c};"]
HOLD_SP = ["let h = &{c}[{p}];", "let h = &{c}[{pr}];", "let h = &{c}[{p}..];"]
HOLD_M = ["let h = &mut {c}[{i}];", "let h = &mut {c}[{r}];", "let h = &mut {c}[{i}..];", "let h = &mut {c}[..{e}];",
          "let h = {c}.index_twice({r}, {r2});", "let h = &mut {c};"]
HOLD_MP = ["let h = &mut {c}[{pr}];", "let h = &mut {c}[{p}..];"]
ACT_S = ["let _ = {c}[{i}] == Default::default();", "let _ = {c}[{r}].len();", "let _ = {c}.len();", "let _ = {c}.vet(0);", "let _ = {c}.scan_from({i}, |_| true);",
         "let _ = {c}.range();"]
ACT_SP = ["let _ = {c}[{p}] == Default::default();", "let _ = {c}.pointer_range();", "let _ = {c}.scan_pointer_range({pr}, |_| true);"]
ACT_M = ["{c}[{i}] = Default::default();", "{c}.swap({i}, {i2});", "{c}.rotate1_up({r});", "let _ = {c}.index_twice({r}, {r2});",
         "let _ = &mut {c}[{r}];", "{c}.zip_mut_raw({r}, {r2}, |_, _| ());"]
ACT_MP = ["{c}.swap_ptr({p}, {p});", "{c}.rotate1_prange({prn});", "{c}.split_container_at_pointer({p}, |_, _, _, _| ());"]
ACT_G = ["{c}.push(Default::default());", "{c}.insert({e}, Default::default());"]
ACT_MOVE = ["let _moved = {c};", "drop({c});", "let _moved = {c}.only_index();"]
# the use of the container inside its own callback: {a} is the action
CB_S = ["{c}.scan_from({i}, |_| {{ {a} true }});", "{c}.scan_from_rev({i}, |_| {{ {a} true }});", "{c}.scan_range({r}, |_| {{ {a} true }});",
        "for _x in &{c}[{r}] {{ {a} }}", "for _x in {c}[{r}].iter().rev() {{ {a} }}"]
CB_SP = ["{c}.scan_tail_({p}, |_| {{ {a} true }});", "{c}.scan_pointer_range({pr}, |_| {{ {a} true }});",
         "zip({pr}, &{c}, {ps}, &{c}, |_, _| {{ {a} }});"]
CB_M = ["{c}.zip_mut_raw({r}, {r2}, |_, _| {{ {a} }});", "for _x in &mut {c}[{r}] {{ {a} }}"]
CB_MP = ["{c}.split_container_at_pointer({p}, |_, _, _, _| {{ {a} }});"]
CB_0 = ["for _x in {r} {{ {a} }}", "for _x in {c}.range() {{ {a} }}", "for _x in {r}.subdivide(2) {{ {a} }}"]
# a predicate keeps what it was shown
LEAK = ["let mut h = vec![]; {c}.scan_from({i}, |x| {{ h.push(x); true }});", "let mut h = vec![]; {c}.scan_from_rev({i}, |x| {{ h.push(x); true }});",
        "let mut h = vec![]; {c}.scan_range({r}, |x| {{ h.push(x); true }});"]
LEAKP = ["let mut h = vec![]; {c}.scan_pointer_range({pr}, |x| {{ h.push(x); true }});",
         "let mut h = vec![]; {c}.scan_pointer_range_rev({pr}, |x| {{ h.push(x); true }});",
         "let mut h = vec![]; zip({pr}, &{c}, {ps}, &{c}, |x, _| h.push(x));"]


def fam_borrow(p, depth, noise):
    rng = random.Random(p["seed"])
    g = Gen(rng, depth, noise)
    T = p["T"]
    c = C("c0", 0, p["kind"], T)
    scope_open(g, "d0", c)
    v = dict(c="c0", b="&c0", i=g.make(c, "I", "N"), i2=g.make(c, "I", "N"), e=g.make(c, "I", "U"), r=g.make(c, "R", g.proof()), r2=g.make(c, "R", g.proof()))
    text = p.get("hold", "") + p["act"] + p.get("cb", "")
    if re.search(r"\{p", text):
        v.update(p=g.make(c, "PI", "N"), pr=g.make(c, "PR", g.proof()), prn=g.make(c, "PR", "N"), ps=g.make(c, "PS", g.proof()))
    if p["only"]:
        g.lines.append("let mut c0 = c0.only_index();")
    a = p["act"].format(**v)
    if p["shape"] == "cb":
        g.lines.append(p["cb"].format(a=a, **v))
    elif p["shape"] == "held":
        # held across the action
        g.lines += [p["hold"].format(**v), a, "let _ = &h;"]
    else:
        # done with it before the action
        g.lines += [p["hold"].format(**v), "let _ = &h;", a]
    g.lines.append("});")
    return "fn p(%s) {\n%s\n}" % (param("d0", p["kind"], T), "\n".join(g.lines))


def rand_borrow(rng):
    only = rng.random() < 0.25
    mutk = [k for k in KINDS if {CON, CONM, GETM} <= KINDS[k][1] and (not only or PUSH in KINDS[k][1])]
    kind = rng.choice(mutk)
    shape = rng.choice(["cb", "held", "held", "done"])
    acts = [(a, "s") for a in ACT_S] + [(a, "m") for a in ACT_M]
    if only:
        acts += [(a, "m") for a in ACT_G] * 3
    else:
        acts += [(a, "s") for a in ACT_SP] + [(a, "m") for a in ACT_MP]
    if shape == "cb":
        cbs = [(x, "s") for x in CB_S] + [(x, "m") for x in CB_M] + [(x, "0") for x in CB_0]
        if not only:
            cbs += [(x, "s") for x in CB_SP] + [(x, "m") for x in CB_MP]
        cb, ck = rng.choice(cbs)
        act, ak = rng.choice(acts)
        legal = ck == "0" or (ck == "s" and ak == "s")
        return dict(fam="borrow", shape=shape, cb=cb, act=act, kind=kind, only=only, T="u32", legal=legal, seed=rng.randrange(1 << 30))
    holds = [(x, "s") for x in HOLD_S + LEAK] + [(x, "m") for x in HOLD_M]
    if not only:
        holds += [(x, "s") for x in HOLD_SP + LEAKP] + [(x, "m") for x in HOLD_MP]
        acts += [(a, "x") for a in ACT_MOVE]
    else:
        acts += [(a, "x") for a in ACT_MOVE[:2]]
    hold, hk = rng.choice(holds)
    act, ak = rng.choice(acts)
    legal = shape == "done" or (hk == "s" and ak == "s")
    return dict(fam="borrow", shape=shape, hold=hold, act=act, kind=kind, only=only, T="u32", legal=legal, seed=rng.randrange(1 << 30))


def fam_data(p, depth, noise):
    """The data is borrowed (or owned) by the scope while it lasts."""
    return "fn p(%s) {\n%s\n}" % (p["params"], p["body"])


def rand_data(rng):
    M, S = "let mut d = vec![0u32; 4];", "let d = vec![0u32; 4];"
    forms = [
        # mutable: nothing else may touch the data inside
        (M + " scope(&mut d[..], |mut c| {{ {x} let i = c.vet(0).unwrap(); c[i] = 1; }}); {y}", True),
        (M + " scope(&mut d, |mut c| {{ {x} let i = c.vet(0).unwrap(); c[i] = 1; }}); {y}", True),
        (M + " scope(&d[..], |c| {{ {x} let i = c.vet(0).unwrap(); let _ = c[i]; }}); {y}", False),
    ]
    f, mutb = rng.choice(forms)
    reads = ["let _ = d[0];", "let _ = d.len();", "let _ = &d;"]
    writes = ["d[0] = 1;", "d.push(1);", "d.clear();"]
    inside = rng.random() < 0.6
    w = rng.random() < 0.5
    s = rng.choice(writes if w else reads)
    legal = not inside or (not mutb and not w)
    return dict(fam="data", params="", body=f.format(x=s if inside else "", y="" if inside else s), legal=legal)


# forging: safe code that makes up, alters or strengthens a particle
FORGE = [
    "let _: Index<'_> = Index {{ index: 7, ..{i} }};", "let mut t = {i}; t.index = 7;", "let mut t = {r}; t.end = 7;", "let mut t = {r}; t.start = 7;",
    "let _: Index<'_> = Index::new(7);", "let _: Range<'_> = Range::from(0, 7);", "let _: Range<'_, NonEmpty> = Range::from_ne(0, 7);",
    "let _: Range<'_> = Range::from_any(0, 7);", "let _ = Index::<NonEmpty>::assume_any_index({e});", "let _ = Range::assume_nonempty_range({r});",
    "let _: Range<'_, NonEmpty> = Range::assume_any_range({r});", "let _: Index<'_, NonEmpty> = {e};", "let _: Range<'_, NonEmpty> = {r};",
    "let _: Index<'_, NonEmpty> = {e}.into();", "let _: Range<'_, NonEmpty> = {r}.into();", "let _: Index<'_> = Default::default();", "let _: Range<'_> = Default::default();",
    "let _: Index<'_> = 7usize.into();", "let _: Index<'_> = Index::from(7usize);", "let _: Range<'_> = Range::from(0..7usize);", "let _: Range<'_> = (0..7usize).into();",
    "let _ = {i} + 1;", "let mut t = {i}; t += 1;", "let _ = {i} as usize;", "let _: Index<'_, NonEmpty> = Provable::no_proof({i});",
    "let _ = Range {{ start: 0, end: 7, ..{r} }};", "let _: Range<'_> = {i}..{i};", "let _ = {e}.nonempty();",
    "let _ = c0.arr;", "let _ = &mut c0.arr;", "let _ = c0.id;", "let _ = c0.array();", "let _ = c0.array_mut();",
    "use indexing::ContainerPrivate; let _ = c0.array_mut();", "let _ = indexing::Id::default();",
    "let _ = Container {{ id: c0.id, arr: &[0u32][..], mode: std::marker::PhantomData::<()> }};", "let _ = *c0;", "let _ = c0.as_ref();",
    "let _ = indexing::container::Container::new(&[0u32][..]);", "let _: Container<'_, &[u32]> = (&[0u32][..]).into();",
    "let _ = vec![1usize].iter().map(|n| *n).map(Index::from).next();", "let _ = c0[7usize];", "let _ = &c0[0..7usize];",
    "let _ = IntoCheckedRange::into(0..7usize);", "let _ = {r}.advance();", "let _ = {r}.last();", "let _ = {r}.tail();",
    "let _ = {r}.join(0..7usize);", "let _ = {i}.after().after();", "let _ = c0.range_of({e}..{e});", "let _ = c0.range_of({i}..{i});",
    "let _ = c0.range_of(0usize..);", "let _ = c0.xget_unchecked(7);", "let _ = c0.base_len();",
]
FORGE_P = [
    "let _: PIndex<'_, u32> = PIndex::new({p}.ptr());", "let _: PIndex<'_, u32> = PIndex::inbounds({p}.ptr());", "let _: PRange<'_, u32> = PRange::new({p}.ptr(), {p}.ptr());",
    "let _: PSlice<'_, u32> = PSlice::new({p}.ptr(), 7);", "let mut t = {p}; t.idx = std::ptr::null();", "let mut t = {pr}; t.end = {p}.ptr();", "let mut t = {ps}; t.len = 7;",
    "let _: PIndex<'_, u32, NonEmpty> = {pe};", "let _: PRange<'_, u32, NonEmpty> = {pr};", "let _: PRange<'_, u32, NonEmpty> = {pr}.into();",
    "let _: PRange<'_, u32, NonEmpty> = PRange::from({ps});", "let _: PSlice<'_, u32, NonEmpty> = PSlice::from({pr});", "let _: PIndex<'_, u32> = {p}.ptr().into();",
    "let _: PIndex<'_, u32> = Default::default();", "let _ = {pr}.last();", "let _ = {ps}.tail();", "let _ = {pe}.after();", "let _ = c0[{p}.ptr()];",
    "let _ = c0.pointer_range_of({p}..{p});", "let _: PIndex<'_, u8> = {p};", "let _: PRange<'_, u8> = {pr};", "let _ = *{p};", "let _ = indexing::pointer::PRangeIter({pr});",
    "let _ = <&Container<'_, &mut [u32]> as indexing::pointer::ContainerRef<'_>>::dereference({p}.ptr());",
]
IMPLS = [  # unsafe traits cannot be implemented by safe code
    "struct S; impl Trustworthy for S { type Item = u32; fn base_len(&self) -> usize { 9 } }",
    "impl Contiguous for Virt { fn begin(&self) -> *const u64 { std::ptr::null() } fn end(&self) -> *const u64 { std::ptr::null() } fn as_slice(&self) -> &[u64] { &[] } }",
    "struct S; impl ContainerRef<'static> for S { type Item = u32; type Ref = &'static u32; }",
    "#[derive(Copy, Clone)] struct S; impl PointerRange<'static> for S { type Item = u32; fn first(self) -> PIndex<'static, u32, Unknown> { loop {} } fn end(self) -> PIndex<'static, u32, Unknown> { loop {} } fn len(self) -> usize { 9 } }",
    "struct S; impl<I> IndexRange<I> for S {} impl<I> OnePointRange<I> for S {}",
    "struct S; {T} impl FixedLength for S {}",
    "struct S; {T} impl GetUnchecked for S { fn xget_unchecked(&self, i: usize) -> &u32 { &0 } }",
    "struct S; {T} impl Pushable for S { fn push(&mut self, t: u32) -> usize { 0 } }",
    "use indexing::ContainerPrivate; struct S; impl ContainerPrivate for S {}",
]


def fam_forge(p, depth, noise):
    rng = random.Random(p["seed"])
    g = Gen(rng, depth, noise)
    if p["what"] == "impl":
        return p["tmpl"].replace("{T}", "")
    if p["what"] == "unsafe":
        return p["tmpl"]
    c = C("c0", 0, "mutslice", "u32")
    scope_open(g, "d0", c)
    g.add_noise(c)
    v = dict(i=g.make(c, "I", "N"), e=g.make(c, "I", "U"), r=g.make(c, "R", "U"))
    if p["what"] == "ptr":
        v.update(p=g.make(c, "PI", "N"), pe=g.make(c, "PI", "U"), pr=g.make(c, "PR", "U"), ps=g.make(c, "PS", "U"))
    g.lines.append(p["tmpl"].format(**v))
    g.lines.append("});")
    return "fn p(d0: &mut [u32]) {\n%s\n}" % "\n".join(g.lines)


UNSAFE_FNS = [
    "fn p(d: &[u32]) { let _ = d.xget_unchecked(7); }", "fn p(d: &mut [u32]) { let _ = d.xget_unchecked_mut(7); }",
    "fn p(d: &mut Vec<u32>) { d.insert_unchecked(7, 1); }", "fn p(d: &mut Vec<u32>) { Pushable::insert_unchecked(d, 7, 1); }",
    "fn p(d: &Vec<u32>) { let _ = GetUnchecked::xget_unchecked(d, 7); }",
]


def rand_forge(rng):
    what = rng.choice(["idx"] * 6 + ["ptr"] * 3 + ["impl", "unsafe"])
    t = rng.choice({"idx": FORGE, "ptr": FORGE_P, "impl": IMPLS, "unsafe": UNSAFE_FNS}[what])
    return dict(fam="forge", what=what, tmpl=t, legal=False, seed=rng.randrange(1 << 30))


THREADS = [
    "fn need<X: Send + Sync>(_: X) {{}} need({x});",
    "std::thread::scope(|s| {{ s.spawn(move || {{ let _ = {x}; }}); }});",
    "std::thread::scope(|s| {{ s.spawn(|| {{ let _ = &{x}; }}); s.spawn(|| {{ let _ = &{x}; }}); }});",
    "std::thread::scope(|s| {{ let h = s.spawn(|| {x}); let _ = h.join().unwrap(); }});",
    "std::thread::scope(|s| {{ s.spawn(|| {{ let _ = {x}; let _ = c0.len(); let _ = c0.vet(0); }}); let _ = c0.len(); }});",
]


def fam_threads(p, depth, noise):
    rng = random.Random(p["seed"])
    g = Gen(rng, depth, noise)
    c = C("c0", 0, p["kind"], p["T"])
    scope_open(g, "d0", c)
    g.add_noise(c)
    x = g.make(c, p["what"][0], p["what"][1])
    g.lines.append(THREADS[p["how"]].format(x=x))
    g.lines.append("});")
    return "fn p(%s) {\n%s\n}" % (param("d0", p["kind"], p["T"]), "\n".join(g.lines))


def rand_threads(rng):
    return dict(fam="threads", what=rng.choice(BRANDED[:4]), kind=rng.choice(["slice", "mutslice", "vec", "mutvec", "fixed", "ring"]),
                how=rng.randrange(len(THREADS)), T=rng.choice(ITEMS), legal=True, seed=rng.randrange(1 << 30))


COPY = ["let a = {x}; let b = {x}; let _ = (a, b, {x});", "{{ fn need<X: Copy + Clone>(_: X) {{}} need({x}); }}", "let v = vec![{x}; 3]; let _ = v;",
        "let f = move || {x}; let _ = (f(), f(), {x});"]


def fam_history(p, depth, noise):
    """A long legal history on one container: particles are free to copy and keep."""
    rng = random.Random(p["seed"])
    g = Gen(rng, depth, noise)
    T = p["T"]
    c = C("c0", 0, p["kind"], T, p["mode"])
    scope_open(g, "d0", c)
    for _ in range(3 + rng.randrange(10)):
        cand = [o for o in MAKERS + USES if not (o["needs"] - c.caps())
                and all(not is_ptr(a[0]) or {"ptr", CON} <= c.caps() for a in o["args"])]
        o = rng.choice(cand)
        args = [g.make(c, a[0], pr) for a, pr in zip(o["args"], proofs_for(rng, o))]
        g.lines.append(stmt(o, o["tmpl"].format(*args, c="c0")))
        if args and rng.random() < 0.3:
            g.lines.append(rng.choice(COPY).format(x=rng.choice(args)))
    g.lines.append("});")
    return "fn p(%s) {\n%s\n}" % (param("d0", p["kind"], T), "\n".join(g.lines))


def rand_history(rng):
    return dict(fam="history", kind=rng.choice(list(KINDS)), mode=rng.choice(["()", "OnlyIndex"]), T=rng.choice(ITEMS), legal=True,
                seed=rng.randrange(1 << 30))


RENDER = {"scoped": fam_scoped, "fn": fam_fn, "escape": fam_escape, "convert": fam_convert, "unify": fam_unify, "zip": fam_zip,
          "twin03": fam_twin03, "single": fam_single, "twin": fam_twin, "borrow": fam_borrow, "data": fam_data, "forge": fam_forge, "ascribe": fam_ascribe,
          "threads": fam_threads, "history": fam_history}
FAMILIES = {
    "C03": [(rand_scoped, 34), (rand_fn, 22), (rand_escape, 12), (rand_convert, 14), (rand_unify, 8), (rand_zip, 4), (rand_twin03, 6)],
    "C04": [(rand_single, 50), (rand_twin, 14), (rand_borrow, 18), (rand_data, 2), (rand_forge, 8), (rand_ascribe, 3), (rand_threads, 3), (rand_history, 5)],
}


def systematic(cid):
    """Cases that every run contains, whatever the seed."""
    rng = random.Random(12345)
    out = []
    if cid == "C03":
        for t in range(len(TYPES)):
            for to, bounds in [("b", [("a", "b")]), ("b", [("b", "a")]), ("b", [("a", "b"), ("b", "a")]), ("static", [])]:
                out.append(dict(fam="convert", ty=t, wrap=0, to=to, bounds=bounds, via=0, legal=len(bounds) == 2))
        for o in BRAND_OPS:
            ptr = any(is_ptr(a[0]) for a in o["args"])
            n = len(o["args"]) + (1 if uses_container(o) else 0)
            for odd in [None] + list(range(n)):
                lives = ["a"] * n
                if odd is not None:
                    lives[odd] = "b"
                out.append(dict(fam="fn", op=o["name"], kind=kinds_with(rng, o["needs"], ptr), T="u32", proofs=proofs_for(rng, o),
                                lives=lives, bounds=[], legal=odd is None))
        for what in BRANDED + list(DERIVED) + ["container"]:
            for how in ["return", "store", "static"]:
                for legal in (False, True):
                    out.append(dict(fam="escape", what=what, how=how, kind="mutslice", T="u32", legal=legal, seed=1))
    else:
        for o in MAKERS + USES:
            ptr = any(is_ptr(a[0]) for a in o["args"]) or "ptr" in o["needs"]
            mode = "OnlyIndex" if "only" in o["needs"] else "()"
            good = [k for k in KINDS if (o["needs"] - {"ptr", "only"}) | ({CON} if ptr else set()) <= KINDS[k][1]]

            def one(kind, mode, proofs, mutref, form="fn"):
                c = C("c0", 0, kind, "u32", mode)
                missing = o["needs"] - c.caps() if uses_container(o) else set()
                demanded = all(a[1] == "*" or a[1] == q for a, q in zip(o["args"], proofs))
                out.append(dict(fam="single", op=o["name"], focus="systematic", kind=kind, mode=mode, proofs=proofs, form=form,
                                mutref=mutref, T="u32", legal=not missing and demanded and (mutref or not o["mut"]), seed=1))
            # every combination of proofs
            import itertools
            for pr in itertools.product("NU", repeat=len(o["args"])):
                one(rng.choice(good), mode, list(pr), True)
                if o["rk"] and all(a[1] in ("*", q) for a, q in zip(o["args"], pr)):
                    for want in "NU":
                        out.append(ascribe(rng, o, list(pr), want, "let" if want == "N" else "return"))
            if uses_container(o):
                for k in KINDS:
                    for m in ("()", "OnlyIndex"):
                        if o["name"] == "&mut c[..]" and m != "()":
                            continue
                        one(k, m, proofs_for(rng, o), True)
                if o["mut"]:
                    one(rng.choice(good), mode, proofs_for(rng, o), False)
        for k in KINDS:
            for k2 in KINDS:
                out.append(dict(fam="twin", op=None, proofs=[], kind=k, kind2=k2, mode="()", T="u32", T2="u32",
                                legal=FIX in KINDS[k][1] and FIX in KINDS[k2][1], seed=1))
        for what, l in (("idx", FORGE), ("ptr", FORGE_P), ("impl", IMPLS), ("unsafe", UNSAFE_FNS)):
            for t in l:
                out.append(dict(fam="forge", what=what, tmpl=t, legal=False, seed=1))
        for a, ak in [(a, "s") for a in ACT_S + ACT_SP] + [(a, "m") for a in ACT_M + ACT_MP] + [(a, "x") for a in ACT_MOVE]:
            for hl, hk in [(x, "s") for x in HOLD_S + HOLD_SP + LEAK + LEAKP] + [(x, "m") for x in HOLD_M + HOLD_MP]:
                out.append(dict(fam="borrow", shape="held", hold=hl, act=a, kind="mutslice", only=False, T="u32",
                                legal=hk == "s" and ak == "s", seed=1))
            if ak == "x":
                continue
            for cb, ck in [(x, "s") for x in CB_S + CB_SP] + [(x, "m") for x in CB_M + CB_MP] + [(x, "0") for x in CB_0]:
                out.append(dict(fam="borrow", shape="cb", cb=cb, act=a, kind="mutslice", only=False, T="u32",
                                legal=ck == "0" or (ck == "s" and ak == "s"), seed=1))
        for a in ACT_G:
            for hl, hk in [(x, "s") for x in HOLD_S + LEAK] + [(x, "m") for x in HOLD_M]:
                out.append(dict(fam="borrow", shape="held", hold=hl, act=a, kind="vec", only=True, T="u32", legal=False, seed=1))
            for cb, ck in [(x, "s") for x in CB_S] + [(x, "m") for x in CB_M] + [(x, "0") for x in CB_0]:
                out.append(dict(fam="borrow", shape="cb", cb=cb, act=a, kind="mutvec", only=True, T="u32", legal=ck == "0", seed=1))
        for w in BRANDED[:4]:
            for how in range(len(THREADS)):
                out.append(dict(fam="threads", what=w, kind="mutslice", how=how, T="u32", legal=True, seed=1))
    return out


def programs(cid, seed, n):
    rng = random.Random("%s-%d" % (cid, seed))
    out = systematic(cid)
    fams, ws = zip(*FAMILIES[cid])
    for _ in range(n):
        out.append(rng.choices(fams, ws)[0](rng))
    return out


def source(p, minimal=False):
    rng = random.Random(p.get("seed", 0) ^ 0x5bd1)
    depth, noise = (0, 0) if minimal else rng.choice([(0, 0), (0, 1), (1, 0), (1, 2), (2, 1), (3, 1)])
    return RENDER[p["fam"]](p, depth, noise)


# ------------------------------------------------------------ rustc

HEADER = """#![forbid(unsafe_code)]
#![allow(warnings)]
mod prelude {
pub use ::indexing::{scope, Container, Index, IndexingError, NonEmpty, Range, Unknown};
pub use ::indexing::container::OnlyIndex;
pub use ::indexing::container_traits::{Contiguous, ContiguousMut, FixedLength, GetUnchecked, GetUncheckedMut, IndexRange, OnePointRange, Pushable, Trustworthy};
pub use ::indexing::indexing::{IntoCheckedRange, RangeIter, Subdivide};
pub use ::indexing::pointer::{zip, ContainerRef, PIndex, PRange, PRangeIter, PSlice, PointerRange};
pub use ::indexing::proof::Provable;
pub use ::indexing::algorithms::{binary_search_by_prange_, binary_search_by_pslice_, lower_bound_prange_, lower_bound_pslice_};
pub use ::tylib::conts::{Fixed, Grow, Ring, Virt};
pub use std::cmp::Ordering::{Equal, Less};
}
"""


class Lib:
    def __init__(self, runmod):
        self.rm = runmod
        self.dir = os.path.join(runmod.BUILD, "programs")
        runmod.refresh(self.dir)
        p = subprocess.run(["cargo", "check", "--offline", "--locked", "--target-dir", self.dir, "--message-format=json"],
                           cwd=os.path.join(HERE, "tylib"), env=runmod.cargo_env("--cap-lints warn -Awarnings"),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        if p.returncode != 0:
            raise runmod.Error("the library does not build:\n" + p.stderr[-4000:])
        self.art = {}
        for line in p.stdout.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("reason") == "compiler-artifact":
                for f in m["filenames"]:
                    if f.endswith(".rmeta"):
                        self.art[m["target"]["name"]] = f

    def compile(self, tag, progs):
        """-> {index: [(code, message)]} of the modules with errors"""
        os.makedirs(self.rm.OUT, exist_ok=True)
        src, owner = HEADER, []
        owner = [None] * HEADER.count("\n")
        for i, text in enumerate(progs):
            m = "mod p%d { use super::prelude::*;\n%s\n}\n" % (i, text)
            src += m
            owner += [i] * m.count("\n")
        path = os.path.join(self.rm.OUT, "prog-%s.rs" % tag)
        with open(path, "w") as f:
            f.write(src)
        cmd = ["rustc", "--edition", "2021", "--crate-type", "lib", "--crate-name", "prog", "--emit=metadata",
               "-o", os.path.join(self.rm.OUT, "prog-%s.rmeta" % tag), "-L", "dependency=" + os.path.dirname(self.art["indexing"]),
               "--extern", "indexing=" + self.art["indexing"], "--extern", "tylib=" + self.art["tylib"],
               "--error-format=json", "-Awarnings", path]
        p = subprocess.run(cmd, env=self.rm.cargo_env(""), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           errors="replace", cwd=self.rm.OUT)
        errs = {}
        for line in p.stderr.splitlines():
            if not line.startswith("{"):
                continue
            m = json.loads(line)
            if m.get("level") != "error" or not m.get("spans"):
                if m.get("level", "").startswith("error: internal"):
                    raise self.rm.Error("rustc crashed: " + m["message"])
                continue
            spans = [s for s in m["spans"] if s["is_primary"]] + m["spans"]
            ix = None
            for s in spans:
                if s["file_name"].endswith(os.path.basename(path)) and s["line_start"] <= len(owner):
                    ix = owner[s["line_start"] - 1]
                    break
            if ix is None:
                raise self.rm.Error("rustc: error outside of the programs: " + m["message"])
            errs.setdefault(ix, []).append(((m.get("code") or {}).get("code"), m["message"]))
        if p.returncode not in (0, 1) or (p.returncode == 1 and not errs):
            raise self.rm.Error("rustc failed: " + p.stderr[-3000:])
        for f in (path, path[:-3] + ".rmeta"):
            if os.path.exists(f):
                os.unlink(f)
        return errs


def verdicts(lib, tag, progs):
    """Errors per program; programs that other programs' errors may have hidden
    are compiled again until a compilation without any error accepts the rest."""
    left = list(range(len(progs)))
    out = {}
    rnd = 0
    while left:
        e = lib.compile("%s-%d" % (tag, rnd), [progs[i] for i in left])
        for k, v in e.items():
            out[left[k]] = v
        left = [i for k, i in enumerate(left) if k not in e] if e else []
        rnd += 1
    return out


# errors that say the generator wrote nonsense rather than that a rule holds
NONSENSE = {"E0425", "E0432", "E0412", "E0405", "E0061", "E0107", "E0282", "E0283", "E0106", "E0261", "E0428", "E0201", "E0407"}


def judge(lib, tag, ps, minimal=False):
    """-> list of (program, source, message) where rustc and the model disagree, class counts"""
    srcs = [source(p, minimal) for p in ps]
    # the legal ones apart: there must be no error at all
    bad, labels = [], {}
    leg = [i for i, p in enumerate(ps) if p["legal"]]
    ill = [i for i, p in enumerate(ps) if not p["legal"]]
    for name, ids in (("legal", leg), ("illegal", ill)):
        if not ids:
            continue
        e = verdicts(lib, "%s-%s" % (tag, name), [srcs[i] for i in ids])
        for k, i in enumerate(ids):
            fam = ps[i]["fam"]
            labels["%s, %s" % (fam, name)] = labels.get("%s, %s" % (fam, name), 0) + 1
            if name == "legal" and k in e:
                bad.append((ps[i], srcs[i], "a legal program is rejected: " + "; ".join("%s %s" % (c or "", m) for c, m in e[k][:3])))
            elif name == "illegal":
                if k not in e:
                    bad.append((ps[i], srcs[i], "an illegal program is accepted"))
                else:
                    for code in {c for c, _ in e[k]}:
                        labels["error " + str(code)] = labels.get("error " + str(code), 0) + 1
                    if all(c in NONSENSE for c, _ in e[k]) and fam != "forge":
                        labels["rejected, reason unclear"] = labels.get("rejected, reason unclear", 0) + 1
    return bad, labels


def run(cid, chk, plan, seed, thorough, log, rm):
    lib = Lib(rm)
    log("library checked")
    n = plan["n"]
    ps = programs(cid, seed, n)
    seen, uniq = set(), []
    for p in ps:
        h = json.dumps(p, sort_keys=True)
        if h not in seen:
            seen.add(h)
            uniq.append(p)
    chunk = 350
    chunks = [uniq[i:i + chunk] for i in range(0, len(uniq), chunk)]
    bad, labels, errors = [], {}, []
    lock = threading.Lock()
    todo = list(enumerate(chunks))

    def work():
        while True:
            with lock:
                if not todo or errors or len(bad) > 20:
                    return
                k, c = todo.pop(0)
            try:
                b, l = judge(lib, "%s-%d" % (cid, k), c)
            except Exception as e:
                with lock:
                    errors.append(e)
                return
            with lock:
                bad.extend((k, x) for x in b)
                for a, m in l.items():
                    labels[a] = labels.get(a, 0) + m
    ts = [threading.Thread(target=work) for _ in range(8)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errors:
        raise errors[0]
    log("judged", len(uniq), "programs")
    failures = []
    for k, (p, src, msg) in sorted(bad, key=lambda x: (x[0], len(x[1][1])))[:4]:
        # alone, then minimized
        b, _ = judge(lib, cid + "-alone", [p])
        if not b:
            continue
        p, src, msg = b[0]
        b, _ = judge(lib, cid + "-min", [p], minimal=True)
        if b and b[0][2].split(":")[0] == msg.split(":")[0]:
            p, src, msg = b[0]
        failures.append({"group": p["fam"], "case": {"params": p, "program": src, "legal": p["legal"]}, "message": msg, "flavor": "rustc"})
        break
    if bad and not failures:
        raise rm.Error("disagreements that do not show when compiled alone: %s" % [b[1][2] for b in bad[:3]])
    trivial = lambda p: p["legal"] and p["fam"] not in ("scoped", "fn", "single", "history", "twin", "twin03", "borrow")
    ntp = [p for p in uniq if not trivial(p)]
    nt, dnt = len(ntp), len({source(p) for p in ntp})
    samples = []
    for p in (uniq[0], uniq[len(uniq) // 2], uniq[-1]):
        samples.append(("%s: " % ("legal" if p["legal"] else "illegal")) + source(p).replace("\n", " ")[:500])
    g = {"group": "programs", "rule": "a program with one probe, legal or illegal by the model; non-trivial: illegal, or legal and using particles with a container (legal data and thread programs are not counted)",
         "exhaustive": False, "evaluations": len(uniq), "nontrivial": nt, "distinct_nontrivial": dnt, "labels": labels,
         "samples": samples, "failure": None}
    return failures, [("rustc", [g])]


def replay(r, chk, log, rm):
    lib = Lib(rm)
    case = r["case"]
    e = lib.compile("replay", [case["program"]])
    ok = (not e) == bool(case["legal"])
    print(case["program"])
    if ok:
        print("REPLAY: the case passes")
        return 0
    print("REPLAY: " + ("rejected although legal: %s" % e[0][:3] if e else "accepted although illegal"))
    print("VIOLATION property=%s replay=%s" % (r["property"], r.get("path", "-")))
    return 1
