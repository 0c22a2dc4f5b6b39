"""Regular expressions as position automata: ambiguity of repetitions, words accepted, prefix relations."""
import re
try:
    from re import _parser as sre_parse, _constants as sc
except ImportError:      # older interpreters
    import sre_parse
    import sre_constants as sc
import warnings

ALPHA = [chr(i) for i in range(128)] + ["\u03b1", "\u2014", "\u00a0", "\u0663", "\ue000"]
INDEX = {c: i for i, c in enumerate(ALPHA)}
FULL = (1 << len(ALPHA)) - 1


def mask(pred):
    m = 0
    for i, c in enumerate(ALPHA):
        if pred(c):
            m |= 1 << i
    return m


CATS = {
    sc.CATEGORY_DIGIT: mask(str.isdecimal), sc.CATEGORY_SPACE: mask(str.isspace), sc.CATEGORY_WORD: mask(lambda c: c.isalnum() or c == "_"),
}
CATS[sc.CATEGORY_NOT_DIGIT] = FULL & ~CATS[sc.CATEGORY_DIGIT]
CATS[sc.CATEGORY_NOT_SPACE] = FULL & ~CATS[sc.CATEGORY_SPACE]
CATS[sc.CATEGORY_NOT_WORD] = FULL & ~CATS[sc.CATEGORY_WORD]


def litmask(code, ic):
    c = chr(code)
    if c in INDEX:
        m = 1 << INDEX[c]
    else:
        m = 1 << INDEX["\u03b1" if c.isalnum() else "\u00a0" if c.isspace() else "\u2014"]
    if ic:
        for d in (c.lower(), c.upper()):
            if len(d) == 1 and d in INDEX:
                m |= 1 << INDEX[d]
    return m


class NFA:
    def __init__(self):
        self.eps = []       # state -> [(target, guarded)]
        self.pos = []       # (src, mask, dst, text)
        self.out = []       # state -> [position index]
        self.subs = []      # sub-expressions of assertions

    def new(self):
        self.eps.append([])
        self.out.append([])
        return len(self.eps) - 1

    def e(self, a, b, g=False):
        self.eps[a].append((b, g))

    def ch(self, a, m, b):
        self.pos.append((a, m, b))
        self.out[a].append(len(self.pos) - 1)


class TooBig(Exception):
    pass


def build(pattern, flags=0, parsed=None):
    """-> (nfa, start, accept)"""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        p = parsed if parsed is not None else sre_parse.parse(pattern, flags)
    fl = (p.state.flags if parsed is None else flags) | flags
    n = NFA()

    def seq(items, a, fl):
        for op, av in items:
            a = one(op, av, a, fl)
            if len(n.eps) > 60000:
                raise TooBig()
        return a

    def inmask(av, ic):
        m, neg = 0, False
        for op, v in av:
            if op is sc.NEGATE:
                neg = True
            elif op is sc.LITERAL:
                m |= litmask(v, ic)
            elif op is sc.RANGE:
                lo, hi = v
                mm = mask(lambda c: lo <= ord(c) <= hi)
                if ic:
                    mm |= mask(lambda c: len(c.swapcase()) == 1 and lo <= ord(c.swapcase()) <= hi)
                m |= mm
            elif op is sc.CATEGORY:
                m |= CATS[v]
        return FULL & ~m if neg else m

    def one(op, av, a, fl):
        ic = bool(fl & re.I)
        if op is sc.LITERAL:
            b = n.new(); n.ch(a, litmask(av, ic), b); return b
        if op is sc.NOT_LITERAL:
            b = n.new(); n.ch(a, FULL & ~litmask(av, ic), b); return b
        if op is sc.ANY:
            b = n.new(); n.ch(a, FULL if fl & re.S else FULL & ~(1 << INDEX["\n"]), b); return b
        if op is sc.IN:
            b = n.new(); n.ch(a, inmask(av, ic), b); return b
        if op is sc.BRANCH:
            b = n.new()
            for alt in av[1]:
                s = n.new(); n.e(a, s)
                n.e(seq(alt, s, fl), b)
            return b
        if op is sc.SUBPATTERN:
            _, add, rem, sub = av
            return seq(sub, a, (fl | add) & ~rem)
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT) or op is getattr(sc, "POSSESSIVE_REPEAT", None):
            lo, hi, sub = av
            poss = op is getattr(sc, "POSSESSIVE_REPEAT", None)
            for _ in range(min(lo, 4)):
                a = seq(sub, a, fl)
            if hi is sc.MAXREPEAT or hi == sc.MAXREPEAT:
                if poss:
                    b = n.new(); n.e(a, b)
                    s = n.new(); n.e(a, s); t = seq(sub, s, fl); n.e(t, b)
                    return b
                h = n.new(); n.e(a, h)
                s = n.new(); n.e(h, s)
                t = seq(sub, s, fl); n.e(t, h)
                b = n.new(); n.e(h, b)
                return b
            b = n.new(); n.e(a, b)
            for _ in range(min(hi - lo, 4)):
                a = seq(sub, a, fl)
                n.e(a, b)
            return b
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            n.subs.append((av[1], fl))
            b = n.new(); n.e(a, b, True); return b
        if op is sc.AT:
            b = n.new(); n.e(a, b, True); return b
        if op is sc.GROUPREF:
            b = n.new(); n.e(a, b, True); return b
        if op is sc.GROUPREF_EXISTS:
            b = n.new()
            for alt in av[1:]:
                if alt is None:
                    n.e(a, b)
                else:
                    s = n.new(); n.e(a, s); n.e(seq(alt, s, fl), b)
            return b
        if op is getattr(sc, "ATOMIC_GROUP", None):
            return seq(av, a, fl)
        b = n.new(); n.e(a, b); return b

    s = n.new()
    t = seq(p, s, fl)
    return n, s, t


def closure(n, s, guarded=True):
    seen = {s}
    todo = [s]
    while todo:
        a = todo.pop()
        for b, g in n.eps[a]:
            if (guarded or not g) and b not in seen:
                seen.add(b)
                todo.append(b)
    return seen


def follow(n):
    """position -> {next position: number of distinct epsilon paths (capped at 2)}"""
    memo = {}

    def paths(s):
        if s in memo:
            return memo[s]
        cnt = {}
        budget = [20000]

        def dfs(a, on):
            budget[0] -= 1
            if budget[0] < 0:
                raise TooBig()
            for q in n.out[a]:
                cnt[q] = min(2, cnt.get(q, 0) + 1)
            for b, _ in n.eps[a]:
                if (a, b) not in on:
                    dfs(b, on | {(a, b)})
        dfs(s, frozenset())
        memo[s] = cnt
        return cnt
    return [paths(p[2]) for p in n.pos]


def scc(nodes, succ):
    idx, low, st, on, out, cnt = {}, {}, [], set(), [], [0]
    for root in nodes:
        if root in idx:
            continue
        work = [(root, iter(succ(root)))]
        idx[root] = low[root] = cnt[0]; cnt[0] += 1
        st.append(root); on.add(root)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = cnt[0]; cnt[0] += 1
                    st.append(w); on.add(w)
                    work.append((w, iter(succ(w))))
                    adv = True
                    break
                elif w in on:
                    low[v] = min(low[v], idx[w])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == idx[v]:
                comp = set()
                while True:
                    w = st.pop(); on.discard(w); comp.add(w)
                    if w == v:
                        break
                out.append(comp)
    return out


def show(m):
    cs = [c for i, c in enumerate(ALPHA) if m >> i & 1]
    for c in "a x\\{1,.":
        if c in cs:
            return c
    return cs[0] if cs else "?"


def exponential(pattern, flags=0, full=False, parsed=None):
    """witness of exponential ambiguity (a pumped character sequence) or None"""
    n, s, acc = build(pattern, flags, parsed)
    for sub, fl in n.subs:
        w = exponential(None, fl, False, sub)
        if w:
            return w
    if not n.pos:
        return None
    # a run that can stop with a match never has to be undone: only loops that avoid accepting positions can blow up
    dead = set() if full else {i for i, p in enumerate(n.pos) if acc in closure(n, p[2], guarded=False)}
    # loops only: positions reachable from themselves
    plain = []
    for i, p in enumerate(n.pos):
        plain.append(set() if i in dead else {q for st in closure(n, p[2]) for q in n.out[st]} - dead)
    comps = [c for c in scc(range(len(n.pos)), lambda v: plain[v]) if len(c) > 1 or next(iter(c)) in plain[next(iter(c))]]
    if not comps:
        return None
    fol = None
    for c in comps:
        if fol is None:
            fol = follow(n)
        succ = {p: {q: k for q, k in fol[p].items() if q in c} for p in c}
        for p in c:
            for q, k in succ[p].items():
                if k >= 2 and n.pos[q][1]:
                    return show(n.pos[q][1]) + " (two ways around the same loop)"
        if len(c) > 400:
            raise TooBig()

        def psucc(pr):
            a, b = pr
            for a2 in succ[a]:
                for b2 in succ[b]:
                    if n.pos[a2][1] & n.pos[b2][1]:
                        yield (a2, b2)
        for comp in scc([(p, p) for p in c], psucc):
            diag = [x for x in comp if x[0] == x[1]]
            off = [x for x in comp if x[0] != x[1]]
            if diag and off:
                a, b = sorted(off)[0]
                return show(n.pos[a][1] & n.pos[b][1])
    return None


def overlap(p1, f1, p2, f2, witness=False):
    """can some text be matched, from its start, by both patterns?  (assertions are ignored: may say yes too often)"""
    n1, s1, t1 = build(p1, f1)
    n2, s2, t2 = build(p2, f2)
    END = -1

    def clo(n, s, t):
        c = closure(n, s)
        return {END} if t in c else c
    seen, todo = set(), []

    def push(A, B, w):
        for a in A:
            for b in B:
                if (a, b) not in seen:
                    seen.add((a, b))
                    todo.append((a, b, w))
    push(clo(n1, s1, t1), clo(n2, s2, t2), "")
    while todo:
        a, b, w = todo.pop()
        if a == END and b == END:
            return w if witness else True
        if len(seen) > 400000:
            raise TooBig()
        o1 = [(FULL, None)] if a == END else [n1.pos[i][1:] for i in n1.out[a]]
        o2 = [(FULL, None)] if b == END else [n2.pos[i][1:] for i in n2.out[b]]
        for m1, d1 in o1:
            for m2, d2 in o2:
                m = m1 & m2
                if m:
                    push({END} if a == END else clo(n1, d1, t1), {END} if b == END else clo(n2, d2, t2), w + show(m)[:1] if witness else w)
    return None if witness else False
