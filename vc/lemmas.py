"""Lemmas about loops that the solver cannot find itself: each is instantiated only after its inductive step has been
checked (by the solver) on the terms at hand.

sum_lemma   a checked sum of signed integers (a fold over Option<integer> that gives up when a partial sum is out of range)
            against the sum in the scalar field of the same summands: when the checked sum exists, its embedding in the
            field is the field sum.  Uses that the embedding of the integers in a field is additive (assumed).
scatter     a loop that stores at index pi(k) of a sequence in round k, pi a permutation: afterwards element pi(j) is what
            round j stored.  Uses that pi is injective (the assumed contract of SliceRandom::shuffle).
checked     a fold over Option<integer> that gives up when a step is out of range, against a loop that carries the integer
            itself and leaves early: the first succeeds exactly when the second runs to its end, with the same value."""
import term as tm
from values import *
import values as vals
import sys

_cache = {}
_carried = {}
RESULTS = {'append_signature', 'zip32_child', 'zip32_master', 'zip32_path', 'finalized', 'built_bundle', 'halo2_prove'}     # symbols for a Result
OP_FACTS = {}        # symbol -> facts about each of its values, from the contract that introduced it


def subterms(t):
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x not in seen:
            seen.add(x)
            stack.extend(x.args)
    return seen


def closed_subterms(terms):
    """Subterms outside of all binders."""
    seen, stack = set(), list(terms)
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        yield t
        if t.op != 'lam':
            stack.extend(t.args)


def emb(w):
    import models as M
    return ite(slt(w, bvc(128, 0)), tm.poly_neg('Fq', M._u2f('Fq', bvsub(bvc(128, 0), w))), M._u2f('Fq', w))


def some_int(t):
    """t = Some(C(x)): (x, rebuild)"""
    if t.op == 'mk' and t.data == ('std::option::Option', 1) and t.args[0].op == 'mk' and len(t.args[0].args) == 1 and t.args[0].args[0].sort == 128:
        m = t.args[0]
        return m.args[0], m.data
    return None


def sum_lemma(F, S):
    import models as M
    z = some_int(F.args[1])
    l, sl = F.args[2], S.args[1]
    if z is None or F.args[0] is not S.args[0] or l.op != 'lam' or sl.op != 'lam':
        return None
    x0, d = z
    k = fresh('k', 64)
    b, w = inst(l, k), inst(sl, k)
    if b.op != 'lam' or b.data[1] != 'U' or w.op != 'ite' or w.args[0].op != 'slt':
        return None
    w = w.args[0].args[0]
    if w.sort != 128 or inst(sl, k) is not emb(w):
        return None
    x = fresh('x', 128)
    val = lambda t: smart('fld', (smart('fld', (t,), 'U', ('std::option::Option', 1, 0)),), 128, (d[0], d[1], 0))
    some = lambda t: eq(smart('discr', (t,), 64), bvc(64, 1))
    r = inst(b, tm.mk('mk', (tm.mk('mk', (x,), 'U', d),), 'U', ('std::option::Option', 1)))
    n = inst(b, tm.mk('mk', (), 'U', ('std::option::Option', 0)))
    sol = sys.modules["exec"].Solver()
    sol.lemmas = False
    if sol.check([some(r), not_(eq(sext(136, val(r)), bvadd(sext(136, x), sext(136, w))))]) != 'unsat' or sol.check([some(n)]) != 'unsat':
        return None
    e = tm.poly_add('Fq', emb(val(F)), tm.poly_neg('Fq', emb(x0)))
    z = tm.poly_const('Fq', 0)
    return implies(some(F), and_(M.feq('Fq', S, e), M.feq('Fq', tm.poly_add('Fq', S, tm.poly_neg('Fq', e)), z), M.feq('Fq', tm.poly_add('Fq', e, tm.poly_neg('Fq', S)), z)))


def carried_sum(G, S, q):
    """The same for a loop that carries the integer and is left early, as condition q says, instead of overflowing."""
    import models as M
    sl = S.args[1]
    if not (G.args[0] is S.args[0] is q.args[0]) or sl.op != 'lam' or q.args[1].op != 'lam' or G.args[2].op != 'lam':
        return None
    k, x = fresh('k', 64), fresh('x', 128)
    g, w, e = inst(G.args[2], k), inst(sl, k), inst(q.args[1], k)
    if g.op != 'lam' or w.op != 'ite' or w.args[0].op != 'slt':
        return None
    w = w.args[0].args[0]
    if w.sort != 128 or inst(sl, k) is not emb(w):
        return None
    at = tm.mk('fold', (k, G.args[1], G.args[2]), 128)
    sol = sys.modules["exec"].Solver()
    sol.lemmas = False
    if sol.check([not_(e), not_(eq(sext(136, inst(g, at)), bvadd(sext(136, at), sext(136, w))))]) != 'unsat':
        return None
    return implies(eq(q, q.args[0]), is_sum(G, S))


def is_sum(G, S):
    """The embedding of G is S more than where G started."""
    import models as M
    d = tm.poly_add('Fq', emb(G), tm.poly_neg('Fq', emb(G.args[1])))
    z = tm.poly_const('Fq', 0)
    return and_(M.feq('Fq', S, d), M.feq('Fq', tm.poly_add('Fq', S, tm.poly_neg('Fq', d)), z), M.feq('Fq', tm.poly_add('Fq', d, tm.poly_neg('Fq', S)), z))


def zero_sum(S):
    """A sum of integers each of which is zero."""
    import models as M
    if S.args[1].op != 'lam':
        return None
    k = fresh('k', 64)
    w = inst(S.args[1], k)
    if w.op != 'ite' or w.args[0].op != 'slt' or w.args[0].args[0].sort != 128 or w is not emb(w.args[0].args[0]):
        return None
    sol = sys.modules["exec"].Solver()
    if sol.check([ult(k, S.args[0]), not_(eq(w.args[0].args[0], bvc(128, 0)))]) != 'unsat':
        return None
    return M.feq('Fq', S, tm.poly_const('Fq', 0))


def still(G):
    """A loop that never changes what it carries."""
    if G.args[2].op != 'lam':
        return None
    k, x = fresh('k', 64), fresh('x', G.sort)
    g = inst(G.args[2], k)
    if g.op != 'lam':
        return None
    sol = sys.modules["exec"].Solver()
    if sol.check([ult(k, G.args[0]), not_(eq(inst(g, x), x))]) != 'unsat':
        return None
    return eq(G, G.args[1])


def fixed(F):
    """A loop whose starting value is a fixed point of its body."""
    if F.args[2].op != 'lam':
        return None
    k = fresh('k', 64)
    b = inst(F.args[2], k)
    if b.op != 'lam':
        return None
    r = inst(b, F.args[1])
    val = lambda t: smart('fld', (smart('fld', (t,), 'U', ('std::option::Option', 1, 0)),), 128, find_checked(F)[1] + (0,))
    same = lambda a, b: and_(eq(smart('discr', (a,), 64), smart('discr', (b,), 64)), eq(val(a), val(b)))
    sol = sys.modules["exec"].Solver()
    if sol.check([ult(k, F.args[0]), not_(same(r, F.args[1]))]) != 'unsat':
        return None
    return same(F, F.args[1])


def find_checked(t):
    while t.op == 'fold':
        t = t.args[1]
    return some_int(t)


def none_stays(F):
    """A fold over an Option whose step keeps None: it is Some only if it started as Some."""
    if F.args[2].op != 'lam':
        return None
    b = inst(F.args[2], fresh('k', 64))
    if b.op != 'lam' or b.data[1] != 'U':
        return None
    some = lambda t: eq(smart('discr', (t,), 64), bvc(64, 1))
    sol = sys.modules["exec"].Solver()
    sol.lemmas = False
    if sol.check([some(inst(b, tm.mk('mk', (), 'U', ('std::option::Option', 0))))]) != 'unsat':
        return None
    return implies(some(F), some(F.args[1]))


def checked_lemma(F, G, firsts):
    z = find_checked(F)
    if z is None or F.args[0] is not G.args[0] or G.sort != 128 or F.args[2].op != 'lam' or G.args[2].op != 'lam':
        return []
    d = z[1]
    k, x = fresh('k', 64), fresh('x', 128)
    b, g = inst(F.args[2], k), inst(G.args[2], k)
    if b.op != 'lam' or b.data[1] != 'U' or g.op != 'lam':
        return []
    val = lambda t: smart('fld', (smart('fld', (t,), 'U', ('std::option::Option', 1, 0)),), 128, (d[0], d[1], 0))
    some = lambda t: eq(smart('discr', (t,), 64), bvc(64, 1))
    mksome = lambda x: tm.mk('mk', (tm.mk('mk', (x,), 'U', d),), 'U', ('std::option::Option', 1))
    r = inst(b, mksome(x))
    n = inst(b, tm.mk('mk', (), 'U', ('std::option::Option', 0)))
    sol = sys.modules["exec"].Solver()
    sol.lemmas = False
    if sol.check([some(r), not_(eq(val(r), inst(g, x)))]) != 'unsat' or sol.check([some(n)]) != 'unsat':
        return []
    i, j = F.args[1], G.args[1]
    same = and_(some(i), eq(val(i), j))
    out = [implies(and_(some(F), same), eq(val(F), G))]
    for q in firsts:
        if q.args[0] is not F.args[0] or q.args[1].op != 'lam':
            continue
        e = inst(q.args[1], k)
        at = tm.mk('fold', (k, G.args[1], G.args[2]), 128)
        if at not in subterms(e):
            continue
        s = some(inst(b, mksome(at)))
        if sol.check([e, s]) == 'unsat' and sol.check([not_(e), not_(s)]) == 'unsat':
            out.append(implies(same, eq(some(F), eq(q, q.args[0]))))
    return out


def scatter_leaves(t, p, ix):
    """t as a tree of conditions over p and store(p, ix, v): (whether stored, what), or None."""
    if t is p:
        return FALSE, None
    if t.op == 'store' and t.args[0] is p and t.args[1] is ix:
        return TRUE, t.args[2]
    if t.op == 'ite' and p not in t.args[0].fv:
        a, b = scatter_leaves(t.args[1], p, ix), scatter_leaves(t.args[2], p, ix)
        if a and b:
            v = a[1] if b[1] is None else b[1] if a[1] is None or a[1] is b[1] else ite(t.args[0], a[1], b[1])
            return ite(t.args[0], a[0], b[0]), v
    return None


def stores_in(t, p):
    if t.op == 'store' and t.args[0] is p:
        return t.args[1]
    if t.op == 'ite':
        return stores_in(t.args[1], p) or stores_in(t.args[2], p)
    return None


def scatter_lemma(t):
    """t = idx(fold(n, init, lam k p. ... store(p, pi(r, N, k), v(k)) ...), pi(r, N, j)), where n = N"""
    F, q = t.args
    l = F.args[2]
    if l.op != 'lam':
        return None
    k, p = fresh('k', 64), fresh('p', 'U')
    b = inst(l, k)
    if b.op != 'lam' or b.data[1] != 'U':
        return None
    b = inst(b, p)
    ix = stores_in(b, p)
    if ix is None or p in ix.fv:
        return None
    full = TRUE
    if ix is k:
        j = q
    elif ix.op == 'pi' and ix.args[2] is k and q.op == 'pi' and ix.args[:2] == q.args[:2] and k not in ix.args[0].fv:
        j = q.args[2]
        full = eq(F.args[0], q.args[1])
    else:
        return None
    s = scatter_leaves(b, p, ix)
    if s is None or s[1] is None or p in s[1].fv:
        return None
    at = lambda x: subst(x, {k: j})
    return implies(and_(full, ult(j, F.args[0]), at(s[0])), eq(t, at(s[1])))


def facts(terms):
    folds, sums, firsts, out = [], [], [], []
    for t in closed_subterms(terms):
        if t.op == 'fold':
            folds.append(t)
        elif t.op == 'first':
            firsts.append(t)
        elif t.op == 'fsum' and t.data == 'Fq':
            sums.append(t)
        elif t.op == 'idx' and t.args[0].op == 'fold':
            if t not in _cache:
                _cache[t] = scatter_lemma(t)
            out.append(_cache[t])
        elif t.op == 'discr' and (t.args[0].op in RESULTS or t.args[0].op.startswith('ext:std::convert::TryFrom::')):
            out.append(ule(t, bvc(t.sort, 1)))
        elif t.op in OP_FACTS:
            out += OP_FACTS[t.op](t)
        elif t.op == 'pi':
            i, n = t.args[2], t.args[1]
            out.append(implies(ult(i, n), ult(t, n)))
    ints = {G: 1 for G in folds if G.sort == 128}
    if sums or any(F.sort == 'U' and find_checked(F) for F in folds):
        for q in firsts:
            if q not in _carried:
                k = fresh('k', 64)
                e = inst(q.args[1], k)
                _carried[q] = [tm.mk('fold', (q.args[0],) + x.args[1:], 128) for x in subterms(e) if x.op == 'fold' and x.sort == 128 and x.args[0] is k and k not in x.args[1].fv and k not in x.args[2].fv]
            for G in _carried[q]:
                while G.op == 'fold':
                    ints[G] = 1
                    G = G.args[1]
    for t, f in [(S, zero_sum) for S in sums] + [(G, still) for G in ints if sums] + [(F, fixed) for F in folds if sums and some_int(F.args[1])]:
        if (t, f) not in _cache:
            _cache[t, f] = None
            _cache[t, f] = f(t)
        out.append(_cache[t, f])
    for S in sums:
        for G in ints:
            if _cache.get((S, zero_sum)) is not None and _cache.get((G, still)) is not None:
                out.append(is_sum(G, S))
            for q in firsts:
                if (G, S, q) not in _cache:
                    _cache[G, S, q] = carried_sum(G, S, q)
                out.append(_cache[G, S, q])
    for F in folds:
        if F.sort == 'U' and F.args[1].op == 'fold' and find_checked(F):
            if F not in _cache:
                _cache[F] = none_stays(F)
            out.append(_cache[F])
        for S in sums:
            if (F, S) not in _cache:
                _cache[F, S] = sum_lemma(F, S)
            out.append(_cache[F, S])
        for G in ints:
            if F.sort == 'U':
                key = (F, G, tuple(firsts))
                if key not in _cache:
                    _cache[key] = checked_lemma(F, G, firsts)
                out += _cache[key]
    return [f for f in out if f is not None and f is not TRUE]
