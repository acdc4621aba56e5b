"""Concrete evaluation of terms, and the search for a counterexample to an obligation.

A term is evaluated in a concrete interpretation: machine integers exactly, field elements exactly in their
prime field, group elements by their discrete logarithm, sequences, folds, sums and searches element by
element, injective encodings by their definition, everything else (hashes, opaque values) as random functions.
A counterexample is an assignment that satisfies the path condition and the recorded facts and makes the
obligation false.  It is what turns "not proved" into "fails"."""
import random
import time
from term import *
import term as tm
import values as vals
from values import ADTS, KNOWN_LEN
import exec as xm

CAP = 300


class Skip(Exception):
    """This sample cannot be evaluated."""


_loops = {}


def has_loop(t):
    r = _loops.get(t)
    if r is None:
        r = _loops[t] = t.op == 'fold' or any(has_loop(a) for a in t.args)
    return r


Unsupported_ = (vals.Unsupported, TypeError, AttributeError, AssertionError)


class Long(Skip):
    def __init__(self, t):
        Skip.__init__(self, 'long loop')
        self.t = t


class Tok:
    __slots__ = ('key', 'f', 'g', 'n')

    def __init__(self, key, n):
        self.key, self.f, self.g, self.n = key, {}, None, n

    def __repr__(self):
        return 'τ%d' % self.n


class Lazy:
    """A sequence too long to write out: only its length is known."""
    __slots__ = ('n', 'uid')

    def __init__(self, n, uid):
        self.n, self.uid = n, uid

    def __hash__(self):
        return hash(('lazy', self.n))

    def __eq__(self, o):
        if self is o or isinstance(o, Lazy) and self.uid == o.uid:
            return True
        if isinstance(o, Lazy) and self.n != o.n:
            return False
        if not isinstance(o, Lazy):
            return False
        raise Skip('long sequences of the same length')


_forced = {}


def forced_value(key):
    """What a contract says of a part of each value of its symbol (lemmas.OP_FACTS)."""
    if not _forced:
        _forced[None] = None
        for op, f in xm.lemmas.OP_FACTS.items():
            for c in f(tm.mk(op, (tm.fresh('x', 'U'),), 'U')):
                a, b = c.args
                if is_c(b):
                    a, b = b, a
                path = ()
                while b.op in ('fld', 'discr'):
                    path += (b.op, b.data)
                    b = b.args[0]
                _forced[path + (op,)] = a.data
    path = ()
    while key[0] in ('fld', 'discr') and isinstance(key[1], Tok):
        path += (key[0], key[2] if len(key) > 2 else None)
        key = key[1].key
    return _forced.get(path + (key[0],)) if path else None


# symbols a contract introduced with an equation: their values
DEFS = {}

_fb = {}


def free_bvars(t):
    r = _fb.get(t)
    if r is None:
        if t.op == 'bvar':
            r = frozenset([(t.data, t.sort)])
        else:
            r = frozenset().union(*[free_bvars(a) for a in t.args])
            if t.op == 'lam':
                r = r - {t.data}
        _fb[t] = r
    return r


BV = {'eqbv', 'bvadd', 'bvsub', 'bvmul', 'bvand', 'bvor', 'bvxor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem', 'ult', 'ule',
      'slt', 'sle', 'concat', 'extract', 'zext', 'sext'}
INVERSE = dict(unwnafb='wnafb', wnafb='unwnafb', unwnafs='wnafs', wnafs='unwnafs', sk='sk_scalar', sk_scalar='sk', vk='vk_pt', vk_pt='vk',
               sig='sig_bytes', sig_bytes='sig', bns='unbns', unbns='bns')
P, Q = tm.P_BASE, tm.Q_SCALAR


class Ev:
    def __init__(self, seed, hints=None):
        self.seed = seed
        self.rng = random.Random(seed)
        self.tab = {}
        self.toks = {}
        self.proj = {}
        self.revF, self.revG = {}, {}
        self.ptx = {}
        self.hints = hints or {}
        self.touched = set()
        self.start()

    def start(self):
        self.memo = {}
        self.touched = set()
        self.end = time.time() + (8 if self.lens else 3)

    # -- atoms
    def tok(self, key):
        r = self.toks.get(key)
        if r is None:
            r = self.toks[key] = Tok(key, len(self.toks))
        return r

    def atom(self, key, sort, t=None):
        if key in self.tab:
            return self.tab[key]
        if sort == 'U':
            return self.tok(key)
        forced = forced_value(key)
        if forced is not None:
            v = forced
        elif t is not None and t in self.hints and not free_bvars(t):
            v = self.hints[t]
        elif sort == 'B':
            v = self.rng.random() < (0.98 if key[0] == 'sins_def' else 0.5)
        elif key[0] == 'len':
            v = self.rng.choice(self.lens if self.lens and self.rng.random() < 0.6 else (0, 1, 2, 3))
        elif key[0] == 'discr':
            dom = vals.DISCR.get(vals.dpath(t.args[0])) if t is not None and t.op == 'discr' else None
            v = self.rng.choice((0, 1, 1) if dom is None or dom == {0, 1} else sorted(dom)) & ((1 << sort) - 1)
        else:
            m = (1 << sort) - 1
            v = self.rng.randrange(4) & m if self.small else self.rng.choice((0, 1, 2, self.rng.randrange(8), self.rng.getrandbits(sort), self.rng.getrandbits(sort), self.rng.getrandbits(sort), m, 1 << (sort - 1), m >> 1)) & m if sort > 8 else self.rng.getrandbits(sort)
        self.tab[key] = v
        return v

    def child(self, tokn, key, sort, t=None):
        v = self.atom((key[0], tokn) + tuple(key[1:]), sort, t)
        self.proj.setdefault((key, v), set()).add(tokn)
        return v

    special = False
    small = False
    lens = ()

    # -- views
    def asF(self, v, f):
        if isinstance(v, Tok):
            r = v.f.get(f)
            if r is None:
                k = ('F', f, v)
                r = self.tab.get(k)
                if r is None:
                    r = self.rng.randrange(1, tm.MODULUS[f])
                    if self.special and self.rng.random() < 0.3:
                        # the largest elements are the only ones with the top bit set
                        x = self.rng.choice((tm.MODULUS[f] - 1, tm.MODULUS[f] - 2, tm.MODULUS[f] - self.rng.randrange(3, 1 << 16), 1, 2, 1 << 254, 1 << 253))
                        if (f, x) not in self.revF:
                            r = x
                    self.tab[k] = r
                v.f[f] = r
                self.revF[(f, r)] = v
            return r
        if isinstance(v, tuple) and v[0] == 'F' and v[1] == f:
            return v[2]
        raise Skip('not a field element: %r' % (v,))

    def mkF(self, f, i):
        i %= tm.MODULUS[f]
        r = self.revF.get((f, i))
        return r if r is not None and self.tab.get(('F', f, r)) == i else ('F', f, i)

    def asG(self, v):
        if isinstance(v, Tok):
            if v.g is None:
                k = ('G', v)
                if k not in self.tab:
                    self.tab[k] = self.rng.randrange(1, Q)
                v.g = self.tab[k]
                self.revG[v.g] = v
            return v.g
        if isinstance(v, tuple) and v[0] == 'G':
            return v[1]
        raise Skip('not a group element: %r' % (v,))

    def mkG(self, i):
        i %= Q
        r = self.revG.get(i)
        return r if r is not None and self.tab.get(('G', r)) == i else ('G', i)

    def length(self, v):
        if isinstance(v, Lazy):
            return v.n
        if isinstance(v, tuple) and v[0] == 'seq':
            return len(v[1])
        if isinstance(v, Tok):
            return self.child(v, ('len',), 64)
        raise Skip('length')

    def at(self, v, i, sort):
        if isinstance(v, tuple) and v[0] == 'seq':
            if i < len(v[1]):
                return v[1][i]
            return self.atom(('oob', v, i), sort)
        if isinstance(v, Tok):
            return self.child(v, ('idx', i), sort)
        raise Skip('index of %r' % (v,))

    def items(self, v, sort):
        n = self.length(v)
        if n > 4 * CAP:
            raise Skip('long')
        return [self.at(v, i, sort) for i in range(n)]

    def parents(self, keys_vals):
        for k, v in keys_vals:
            if isinstance(v, Tok):
                # provenance
                if isinstance(v.key, tuple) and len(v.key) > 1 and (v.key[0],) + tuple(v.key[2:]) == k and isinstance(v.key[1], Tok):
                    yield v.key[1]
            for p in tuple(self.proj.get((k, v), ())):
                yield p

    def mkv(self, name, var, fs, sorts):
        fs = tuple(fs)
        ks = [(('fld', (name, var, i)), v) for i, v in enumerate(fs)]
        en = name in ADTS and ADTS[name]['k'] == 'enum'
        tried = set()
        for i, kv in enumerate(ks[:4]):
            for p in self.parents([kv]):
                if p in tried or len(tried) > 12:
                    continue
                tried.add(p)
                if en and self.child(p, ('discr',), 64) != int(ADTS[name]['v'][var]['d']):
                    continue
                if all(self.eqv(self.child(p, k, s), v) for (k, v), s in zip(ks, sorts)):
                    return p
        return ('mk', name, var, fs)

    def seqv(self, items, sort):
        items = tuple(items)
        if items:
            tried = set()
            for p in self.parents([(('idx', 0), items[0])]):
                if p in tried or len(tried) > 12:
                    continue
                tried.add(p)
                if self.tab.get(('len', p)) == len(items) and all(self.eqv(self.child(p, ('idx', i), sort), v) for i, v in enumerate(items)):
                    return p
        return ('seq', items)

    def eqv(self, a, b):
        if a is b:
            return True
        if isinstance(a, (bool, int)) or isinstance(b, (bool, int)):
            return a == b
        if isinstance(b, Tok) and not isinstance(a, Tok):
            a, b = b, a
        if isinstance(a, Lazy) or isinstance(b, Lazy):
            if self.length(a) != self.length(b):
                return False
            if isinstance(a, Lazy) and isinstance(b, Lazy) and a.uid == b.uid:
                return True
            raise Skip('long sequences of the same length')
        if isinstance(a, Tok):
            if isinstance(b, Tok):
                for f in a.f:
                    if f in b.f and a.f[f] == b.f[f]:
                        return True
                return a.g is not None and a.g == b.g
            k = b[0]
            if k == 'F':
                return self.asF(a, b[1]) == b[2]
            if k == 'G':
                return self.asG(a) == b[1]
            if k == 'mk':
                _, name, var, fs = b
                if name in ADTS and ADTS[name]['k'] == 'enum' and self.child(a, ('discr',), 64) != int(ADTS[name]['v'][var]['d']):
                    return False
                return all(self.eqv(self.child(a, ('fld', (name, var, i)), self.sort(v)), v) for i, v in enumerate(fs))
            if k == 'seq':
                return self.length(a) == len(b[1]) and all(self.eqv(self.at(a, i, self.sort(v)), v) for i, v in enumerate(b[1]))
            return False
        if a[0] != b[0]:
            return False
        if a[0] == 'mk':
            return a[1:3] == b[1:3] and len(a[3]) == len(b[3]) and all(self.eqv(x, y) for x, y in zip(a[3], b[3]))
        if a[0] == 'seq':
            return len(a[1]) == len(b[1]) and all(self.eqv(x, y) for x, y in zip(a[1], b[1]))
        return a == b

    def sort(self, v):
        return 'B' if isinstance(v, bool) else 'I' if isinstance(v, int) else 'U'

    def child_sort_fix(self):
        pass

    # -- points
    def xy(self, s):
        if s == 0:
            return 0, 0
        c = min(s, Q - s)
        if c not in self.ptx:
            r = random.Random('%s/%d' % (self.seed, c))
            self.ptx[c] = (r.randrange(1, P), r.randrange(1, P))
            self.ptx[('x', self.ptx[c][0])] = c
        x, y = self.ptx[c]
        return x, (y if s == c else P - y)

    def enc_pt(self, s):
        x, y = self.xy(s)
        b = list(x.to_bytes(32, 'little'))
        b[31] |= (y & 1) << 7
        return b

    def dec_pt(self, b):
        v = int.from_bytes(bytes(b), 'little')
        if v == 0:
            return 0
        sign, x = v >> 255, v & ((1 << 255) - 1)
        if x >= P or x == 0:
            return None
        if ('x', x) not in self.ptx:
            r = random.Random('%s/x%d' % (self.seed, x))
            if r.random() < 0.3:
                self.ptx[('x', x)] = None
            else:
                c = r.randrange(1, Q // 2)
                self.ptx[('x', x)] = c
                self.ptx[c] = (x, r.randrange(1, P))
        c = self.ptx[('x', x)]
        if c is None:
            return None
        return c if self.xy(c)[1] & 1 == sign else Q - c

    # -- evaluation
    def ev(self, t, env=None):
        m = self.memo
        if env and free_bvars(t):
            key = (t, tuple((k, env.get(k)) for k in sorted(free_bvars(t), key=str)))
        else:
            key = t
        try:
            if key in m:
                return m[key]
        except TypeError:
            key = None
        if time.time() > self.end:
            raise Skip('time')
        r = self.ev_(t, env or {})
        if isinstance(r, Tok) and t in KNOWN_LEN:
            self.tab[('len', r)] = KNOWN_LEN[t]
        if key is not None:
            m[key] = r
        return r

    def ev_(self, t, env):
        op = t.op
        if t in DEFS:
            return self.ev(DEFS[t], env)
        if op == 'c':
            return t.data
        if op == 'var':
            self.touched.add(t)
            return self.atom(('var', t.data), t.sort, t)
        if op == 'bvar':
            if (t.data, t.sort) not in env:
                raise Skip('unbound %r' % ((t.data, t.sort, list(env)),))
            return env[(t.data, t.sort)]
        if op == 'lam':
            raise Skip('bare lambda')
        if op == 'ite':
            return self.ev(t.args[1] if self.ev(t.args[0], env) else t.args[2], env)
        if op == 'and':
            return all(self.ev(a, env) for a in t.args)
        if op == 'not':
            return not self.ev(t.args[0], env)
        if op in ('fold', 'first', 'fsum', 'gsum', 'sumlen'):
            return self.loop(t, env)
        if op == 'seq':
            return self.seq(t, env)
        if op in ('jfold', 'noshape'):
            raise Skip(op)
        if op == 'perm':
            a = self.ev(t.args[0], env)
            r = self.ev(t.args[1], env)
            xs = self.items(a, 'U')
            return self.seqv([xs[i] for i in self.permutation(r, len(xs))], 'U')
        a = [self.ev(x, env) for x in t.args]
        if op == 'eq':
            return self.eqv(a[0], a[1])
        if op in BV:
            c = [bvc(x.sort, v) if x.sort != 'B' else boolc(v) for x, v in zip(t.args, a)]
            r = tm.rebuild(t, c)
            if not is_c(r):
                raise Skip(op)
            return r.data
        if op == 'mk':
            return self.mkv(t.data[0], t.data[1], a, [x.sort for x in t.args])
        if op == 'fld':
            if isinstance(a[0], tuple) and a[0][0] == 'mk':
                n, v, i = t.data
                if a[0][2] == v and i < len(a[0][3]) and (a[0][1] == n or '?' in (n, a[0][1])):
                    return a[0][3][i]
                return self.atom(('badfld', a[0], t.data), t.sort)
            if isinstance(a[0], Tok):
                return self.child(a[0], ('fld', t.data), t.sort, t)
            raise Skip('fld of %r' % (a[0],))
        if op == 'discr':
            if isinstance(a[0], tuple) and a[0][0] == 'mk':
                n = a[0][1]
                return int(ADTS[n]['v'][a[0][2]]['d']) if n in ADTS else 0
            return self.child(a[0], ('discr',), t.sort, t)
        if op == 'len':
            if isinstance(a[0], Tok) and ('len', a[0]) not in self.tab:
                v = self.child(a[0], ('len',), 64, t)
                return v
            return self.length(a[0])
        if op == 'idx':
            if a[1] > 4096:
                raise Skip('big index')
            return self.at(a[0], a[1], t.sort)
        if op == 'pi':
            if a[1] > CAP or a[2] >= a[1]:
                return self.atom(('pi',) + tuple(a), 64)
            return self.permutation(a[0], a[1])[a[2]]
        if op == 'store':
            xs = list(self.items(a[0], t.args[2].sort))
            if a[1] >= len(xs):
                raise Skip('store out of bounds')
            xs[a[1]] = a[2]
            return self.seqv(xs, t.args[2].sort)
        if op == 'poly':
            f, monos = t.data
            xs = [self.asF(x, f) for x in a]
            r = 0
            for c, idx in monos:
                m = c
                for i in idx:
                    m = m * xs[i] % tm.MODULUS[f]
                r += m
            return self.mkF(f, r)
        if op == 'lin':
            r = 0
            for i in range(0, len(a), 2):
                r += self.asF(a[i], 'Fq') * self.asG(a[i + 1])
            return self.mkG(r)
        if op == 'u2f':
            return self.mkF(t.data, a[0])
        if op == 'p2q':
            return self.mkF('Fq', self.asF(a[0], 'Fp'))
        if op == 'repr':
            return self.seqv(self.asF(a[0], t.data).to_bytes(32, 'little'), 8)
        if op in ('fromrepr', 'canon', 'wide'):
            b = self.items(a[0], 8)
            v = int.from_bytes(bytes(b), 'little')
            return v < tm.MODULUS[t.data] if op == 'canon' else self.mkF(t.data, v)
        if op in ('px', 'py'):
            s = self.asG(a[0])
            return self.mkF('Fp', self.xy(s)[op == 'py'])
        if op == 'ptrepr':
            return self.seqv(self.enc_pt(self.asG(a[0])), 8)
        if op in ('frompt', 'ptcanon'):
            b = self.items(a[0], 8)
            s = self.dec_pt(b) if len(b) == 32 else None
            if op == 'ptcanon':
                return s is not None
            return self.mkG(s) if s is not None else self.tok(('frompt', a[0]))
        if op in INVERSE:
            x = a[0]
            if isinstance(x, Tok) and x.key[0] == INVERSE[op] and len(x.key) > 2:
                return x.key[2]
            return self.tok((op, None, x))
        if op in ('ff1enc', 'ff1dec'):
            o = 'ff1dec' if op == 'ff1enc' else 'ff1enc'
            x = a[1]
            if isinstance(x, Tok) and x.key[0] == o and x.key[2] == a[0] and x.key[4:] == tuple(a[2:]):
                return x.key[3]
        try:
            return self.atom((op, t.data) + tuple(a), t.sort, t)
        except TypeError:
            raise Skip('key')

    def permutation(self, r, n):
        k = ('perm', r, n)
        if k not in self.tab:
            p = list(range(n))
            self.rng.shuffle(p)
            self.tab[k] = tuple(p)
        return self.tab[k]

    def apply(self, l, x, env):
        if l.op != 'lam':
            raise Skip('not a lambda')
        e = dict(env)
        e[l.data] = x
        return l.args[0], e

    def loop(self, t, env):
        n = self.ev(t.args[0], env)
        if n > CAP:
            raise Long(t.args[0])
        if t.op == 'fold':
            acc = self.ev(t.args[1], env)
            for i in range(n):
                b, e = self.apply(t.args[2], i, env)
                b, e = self.apply(b, acc, e)
                acc = self.ev(b, e)
            return acc
        if t.op == 'first':
            for i in range(n):
                b, e = self.apply(t.args[1], i, env)
                if self.ev(b, e):
                    return i
            return n
        s = 0
        for i in range(n):
            b, e = self.apply(t.args[1], i, env)
            v = self.ev(b, e)
            s += self.asF(v, t.data) if t.op == 'fsum' else self.asG(v) if t.op == 'gsum' else (v if isinstance(v, int) else self.length(v))
        if t.op == 'fsum':
            return self.mkF(t.data, s)
        return self.mkG(s) if t.op == 'gsum' else s % (1 << 64)

    def lazy(self, t, n, env):
        if any(k[0] == 'len' and v == n for k, v in self.tab.items()):
            raise Skip('long sequences of the same length')
        return Lazy(n, (t, tuple((k, env.get(k)) for k in sorted(free_bvars(t), key=str))))

    def seq(self, t, env):
        out = []
        es = 'U'
        segs = vals.seq_segs(t)
        ns = [None if g[0] == 'lit' else self.ev(g[1], env) for g in segs]
        if any(g[0] == 'lam' and n > CAP * 4 for g, n in zip(segs, ns)):
            tot = 0
            for g, n in zip(segs, ns):
                if g[0] != 'flat':
                    tot += len(g[1]) if n is None else n
                    continue
                if n > CAP:
                    raise Long(g[1])
                for i in range(n):
                    b, e = self.apply(g[2], i, env)
                    tot += self.length(self.ev(b, e))
            return self.lazy(t, tot, env)
        for g in vals.seq_segs(t):
            if g[0] == 'lit':
                out += [self.ev(x, env) for x in g[1]]
                if g[1]:
                    es = g[1][0].sort
                continue
            n = self.ev(g[1], env)
            if n > CAP * 4:
                raise Long(g[1])
            for i in range(n):
                b, e = self.apply(g[2], i, env)
                v = self.ev(b, e)
                if g[0] == 'flat':
                    out += self.items(v, 8 if isinstance(v, Tok) and (v.key[0] in KNOWN_LEN.OPS or v.key[0] == 'blake2b') else 'U')
                else:
                    es = b.sort
                    out.append(v)
        if out:
            es = 'B' if isinstance(out[0], bool) else 8 if isinstance(out[0], int) and es == 'U' else es
        return self.seqv(out, es)

    # -- repairing
    def key(self, t):
        """Table key of an atom (None when its value is computed)."""
        if t.op == 'var':
            return ('var', t.data)
        if t.op in ('fld', 'discr', 'len', 'idx'):
            a = self.ev(t.args[0])
            if not isinstance(a, Tok):
                return None
            if t.op == 'idx':
                return ('idx', a, self.ev(t.args[1]))
            return (t.op, a) + ((t.data,) if t.op == 'fld' else ())
        if t.op in CONCRETE or t.op in INVERSE:
            return None
        return (t.op, t.data) + tuple(self.ev(x) for x in t.args)

    def pin(self, t, v):
        k = self.key(t)
        if k is None or self.tab.get(k) == v:
            return False
        self.tab[k] = v
        return True

    def expand(self, t):
        """t with its folds over a small number of steps unrolled."""
        memo = {}

        def go(x):
            r = memo.get(x)
            if r is not None:
                return r
            if not has_loop(x):
                r = x
            elif x.op == 'fold' and not free_bvars(x):
                n = self.ev(x.args[0])
                if n <= 4:
                    r = go(x.args[1])
                    l = go(x.args[2])
                    for i in range(n):
                        r = go(vals.inst(vals.inst(l, bvc(64, i)), r))
                else:
                    r = x
            elif x.op == 'lam':
                r = x
            else:
                r = tm.rebuild(x, [go(a) for a in x.args])
            memo[x] = r
            return r
        return go(t)

    def bytes_to(self, t, bs):
        """Change the assignment so that the byte sequence t may become bs."""
        if t.op == 'seq' and all(k[0] == 'lit' for k in t.data) and len(t.args) == len(bs):
            return any([self.assign(x, b, 1) for x, b in zip(t.args, bs) if self.ev(x) != b])
        v = self.ev(t)
        if isinstance(v, Tok):
            for i, b in enumerate(bs):
                self.tab[('idx', v, i)] = b
            return True
        return False

    def want(self, t, val, depth=0):
        """Change the assignment so that the boolean term t may become val."""
        if depth == 0 and has_loop(t):
            try:
                t2 = self.expand(t)
            except (Skip,) + Unsupported_:
                t2 = t
            if t2 is not t and not is_c(t2) and self.rng.random() < 0.8:
                return self.want(t2, val, 1)
        op = t.op
        if depth > 40 or free_bvars(t):
            return False
        if op == 'not':
            return self.want(t.args[0], not val, depth + 1)
        if op == 'and':
            bad = [a for a in t.args if self.ev(a) != val] if val else list(t.args)
            self.rng.shuffle(bad)
            if val:
                return any([self.want(a, True, depth + 1) for a in bad])
            return any(self.want(a, False, depth + 1) for a in bad)
        if op == 'ite':
            c, a, b = t.args
            cv = self.ev(c)
            if self.rng.random() < 0.7:
                return self.want(a if cv else b, val, depth + 1)
            return self.want(c, not cv, depth + 1)
        if op == 'eq':
            a, b = t.args
            if self.rng.random() < 0.5:
                a, b = b, a
            for x, y in ((a, b), (b, a)):
                if val:
                    if self.assign(x, self.ev(y), depth + 1):
                        return True
                elif x.sort == 'B':
                    if self.want(x, not self.ev(y), depth + 1):
                        return True
                elif x.sort != 'U':
                    if self.assign(x, self.rng.getrandbits(x.sort), depth + 1):
                        return True
                elif self.assign(x, self.tok(('fresh', self.rng.random())), depth + 1):
                    return True
            return False
        if op in ('ult', 'ule', 'slt', 'sle'):
            a, b = t.args
            x, y = self.ev(a), self.ev(b)
            w = a.sort
            m = (1 << w) - 1
            up, down = [], []
            for d in (1, 0, 2, self.rng.getrandbits(4)):
                up.append((x + d) & m)
                down.append((y - d) & m)
            c = [(b, v) for v in up] + [(a, v) for v in down] + [(a, y), (b, x)] + [(z, self.rng.getrandbits(w)) for z in (a, b)] + [(z, v) for z in (a, b) for v in (0, m, m >> 1, (m >> 1) + 1)]
            self.rng.shuffle(c)
            for z, v in c:
                p, q = (v, y) if z is a else (x, v)
                ok = getattr(tm, op)(bvc(w, p), bvc(w, q))
                if (ok is TRUE) == val and self.assign(z, v, depth + 1):
                    return True
            return False
        if op == 'canon':
            p = tm.MODULUS[t.data]
            v = self.rng.choice((self.rng.randrange(p), self.rng.randrange(p), 0, 1, p - 1)) if val else self.rng.choice((p, p + 1, (1 << 256) - 1, (1 << 255) | self.rng.randrange(p)))
            return self.bytes_to(t.args[0], v.to_bytes(32, 'little'))
        if op == 'ptcanon':
            return self.bytes_to(t.args[0], self.enc_pt(self.rng.choice((0, self.rng.randrange(1, Q), self.rng.randrange(1, Q)))) if val else self.rng.choice(([255] * 32, [0] * 31 + [128])))
        return self.pin(t, val)

    def assign(self, t, v, depth):
        """Change the assignment so that t may evaluate to v."""
        if depth > 40 or free_bvars(t):
            return False
        if t in DEFS:
            t = DEFS[t]
        if t.sort == 'B':
            return self.want(t, v, depth)
        if t.op == 'ite':
            c, a, b = t.args
            for x, cv in ((a, True), (b, False)):
                if self.ev(x) == v and self.ev(c) != cv:
                    return self.want(c, cv, depth + 1)
            return self.assign(a if self.ev(c) else b, v, depth + 1)
        if t.op == 'zext':
            w = t.args[0].sort
            return v >> w == 0 and self.assign(t.args[0], v, depth + 1)
        if t.op == 'sext':
            return self.assign(t.args[0], v & ((1 << t.args[0].sort) - 1), depth + 1)
        if t.op == 'extract':
            hi, lo = t.data
            x = t.args[0]
            if t.data == (7, 7) and x.op == 'idx' and x.args[0].op == 'ptrepr' and is_c(x.args[1]) and x.args[1].data == 31:
                p = self.ev(x.args[0].args[0])
                if isinstance(p, Tok):
                    self.tab[('G', p)] = Q - self.asG(p)
                    return True
                return False
            o = self.ev(t.args[0])
            m = ((1 << (hi - lo + 1)) - 1) << lo
            return self.assign(t.args[0], (o & ~m) | (v << lo), depth + 1)
        if t.op == 'concat':
            h, l = t.args
            p = self.assign(h, v >> l.sort, depth + 1)
            return self.assign(l, v & ((1 << l.sort) - 1), depth + 1) or p
        if t.op in ('bvand', 'bvor', 'bvxor', 'shl', 'lshr') and (is_c(t.args[1]) or t.op[0] == 'b' and is_c(t.args[0])):
            X, K = t.args if is_c(t.args[1]) else t.args[::-1]
            k, m = K.data, (1 << t.sort) - 1
            o = self.ev(X)
            if t.op == 'bvand':
                return v & ~k == 0 and self.assign(X, (self.rng.choice((o, self.rng.getrandbits(t.sort))) & ~k & m) | v, depth + 1)
            if t.op == 'bvor':
                return v & k == k and self.assign(X, (v & ~k) | (o & k), depth + 1)
            if t.op == 'bvxor':
                return self.assign(X, v ^ k, depth + 1)
            if k >= t.sort:
                return False
            if t.op == 'shl':
                return v & ((1 << k) - 1) == 0 and self.assign(X, (v >> k) | (o & (m << (t.sort - k)) & m), depth + 1)
            return v >> (t.sort - k) == 0 and self.assign(X, ((v << k) & m) | (o & ((1 << k) - 1)), depth + 1)
        if t.op in ('bvadd', 'bvsub'):
            a, b = t.args
            m = (1 << t.sort) - 1
            if self.rng.random() < 0.5:
                return self.assign(a, (v - self.ev(b) if t.op == 'bvadd' else v + self.ev(b)) & m, depth + 1)
            return self.assign(b, (v - self.ev(a) if t.op == 'bvadd' else self.ev(a) - v) & m, depth + 1)
        if t.op == 'frompt':
            return self.bytes_to(t.args[0], self.enc_pt(self.asG(v)))
        if t.op == 'wide':
            return self.bytes_to(t.args[0], self.asF(v, t.data).to_bytes(64, 'little'))
        if t.op == 'fromrepr':
            return self.bytes_to(t.args[0], self.asF(v, t.data).to_bytes(32, 'little'))
        if t.op == 'seq' and all(k[0] == 'lit' for k in t.data):
            xs = self.items(v, t.args[0].sort) if t.args else []
            return len(xs) == len(t.args) and any([self.assign(a, x, depth + 1) for a, x in zip(t.args, xs) if self.ev(a) != x])
        if t.op in INVERSE:
            return self.assign(t.args[0], self.tok((INVERSE[t.op], None, v)), depth + 1) if t.sort == 'U' else False
        if t.op == 'poly' and len(t.args) == 1 and len(t.data[1]) <= 2 and all(len(i) <= 1 for c, i in t.data[1]):
            f = t.data[0]
            k = dict((len(i), c) for c, i in t.data[1])
            if k.get(1):
                try:
                    x = (self.asF(v, f) - k.get(0, 0)) * pow(k[1], -1, tm.MODULUS[f]) % tm.MODULUS[f]
                    return self.assign(t.args[0], self.mkF(f, x), depth + 1)
                except Skip:
                    return False
            return False
        if t.op == 'mk':
            if isinstance(v, tuple) and v[0] == 'mk' and v[1:3] == t.data:
                return any([self.assign(a, x, depth + 1) for a, x in zip(t.args, v[3]) if not self.eqv(self.ev(a), x)])
            return False
        return self.pin(t, v)


CONCRETE = {'c', 'lam', 'ite', 'and', 'not', 'fold', 'first', 'fsum', 'gsum', 'sumlen', 'seq', 'perm', 'store', 'eq', 'mk', 'pi', 'poly', 'lin', 'u2f', 'p2q', 'repr',
            'fromrepr', 'canon', 'wide', 'px', 'py', 'ptrepr', 'frompt', 'ptcanon'} | BV

APPROX = ('st!',)
_last = {}


def gather(terms):
    fs = xm.gather_facts(terms)
    return [f for f in fs + xm.lemmas.facts(list(terms) + fs) if not free_bvars(f)]


def thresholds(ts):
    """Lengths about the constants the terms mention."""
    seen, out, todo = set(), set(), list(ts)
    while todo:
        t = todo.pop()
        if t not in seen:
            seen.add(t)
            todo.extend(t.args)
            if is_c(t) and t.sort == 64 and 3 < t.data < CAP - 2 or is_c(t) and t.sort == 64 and 4 * CAP < t.data < 1 << 40:
                out |= {t.data, t.data + 1, t.data + 2}
    return sorted(out)


def branch_conditions(ts):
    """Ground conditions the terms branch on, by shape."""
    seen, out, todo = set(), {}, list(ts)
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        todo.extend(t.args)
        c = None
        if t.op == 'ite':
            c = t.args[0]
        elif t.sort == 'B' and t.op not in ('c', 'and', 'not', 'ite'):
            c = t
        if c is not None and not free_bvars(c):
            out.setdefault((c.op,) + tuple(a.op for a in c.args), {})[c] = 1
    return [list(g) for g in out.values()]


def refute(pc, differ, seed=0, tries=60, seconds=12.0):
    """Search for an assignment with every pc true and differ(ev) true.  Returns a description or None."""
    end = time.time() + seconds
    pc = [c for c in pc if c is not TRUE]
    if any(c is FALSE for c in pc):
        return None
    terms = differ.terms
    facts = None
    stats = dict(skip=0, stuck=0, same=0, why='')
    _last.clear()
    _last.update(stats=stats)
    conds = lens = None
    for n in range(tries):
        if time.time() > end:
            break
        ev = Ev('%s-%d' % (seed, n))
        ev.special = n % 2 == 1
        ev.small = n % 4 == 3
        if n >= 6 and n % 4 == 3:
            if lens is None:
                lens = thresholds(list(terms) + list(pc))
            ev.lens = lens
        goals = []
        if n >= 6:
            if conds is None:
                conds = branch_conditions(list(terms) + list(pc))
            for c in {ev.rng.choice(ev.rng.choice(conds)) for _ in range(ev.rng.choice((1, 1, 2, 2, 3)))} if conds else ():
                goals.append(c if ev.rng.random() < 0.5 else not_(c))
        done = False
        try:
            if facts is None:
                facts = gather(list(pc) + list(terms))
            if n >= 6 and n % 4 == 2:
                inner = branch_conditions([ev.expand(t) for t in terms if has_loop(t)])
                if inner:
                    c = ev.rng.choice(ev.rng.choice(inner))
                    goals = [c if ev.rng.random() < 0.5 else not_(c)]
            for step in range(150):
                if time.time() > end:
                    break
                ev.start()
                try:
                    bad = [c for c in (pc + facts + goals if step < 100 else pc + facts) if not ev.ev(c)]
                    if not bad:
                        differ(ev)
                except Long as e:
                    ev.start()
                    if free_bvars(e.t) or not ev.assign(e.t, ev.rng.choice([x for x in ev.lens if x < CAP] or (0, 1, 2, 3)), 0):
                        raise
                    continue
                if not bad:
                    done = True
                    break
                c = ev.rng.choice(bad)
                _last['bad'] = c
                ev.start()
                if not ev.want(c, True) and not any(ev.want(x, True) for x in bad):
                    # random restart of everything but what is pinned
                    break
                for tk in ev.toks.values():
                    tk.f.clear()
                    tk.g = None
            if not done:
                stats['stuck'] += 1
                continue
            ev.start()
            ok = all(ev.ev(c) for c in pc + facts)
            d = ok and differ(ev)
            if d:
                # evaluated again from scratch, in the other order
                ev.start()
                if differ(ev) and all(ev.ev(c) for c in pc + facts):
                    return dict(sample=n, diff=str(d)[:600], touched=ev.touched)
            stats['same'] += 1
        except Skip as e:
            stats['skip'] += 1
            stats['why'] = str(e)[:200]
        except RecursionError:
            stats['skip'] += 1
            stats['why'] = 'recursion'
    return None


class Differ:
    def __init__(self, pairs):
        self.pairs = pairs      # (label, got, want)
        self.terms = [t for _, a, b in pairs for t in (a, b)]

    def __call__(self, ev):
        for lab, a, b in self.pairs:
            x, y = ev.ev(a), ev.ev(b)
            if not ev.eqv(x, y):
                return '%s: got %s, expected %s' % (lab, short(ev, x), short(ev, y))
        return None


def short(ev, v, d=0):
    if isinstance(v, Tok):
        k = v.key
        if d > 3:
            return '…'
        return '%s(%s)' % (k[0], ', '.join(short(ev, x, d + 1) for x in k[1:]))
    if isinstance(v, tuple):
        if v[0] in ('F', 'G'):
            return '%s:%x' % (v[0], v[-1])
        if v[0] == 'mk':
            return '%s#%d{%s}' % (v[1].split('::')[-1], v[2], ', '.join(short(ev, x, d + 1) for x in v[3][:6]))
        if v[0] == 'seq':
            return '[%s%s]' % (', '.join(short(ev, x, d + 1) for x in v[1][:4]), '…%d' % len(v[1]) if len(v[1]) > 4 else '')
        return '(%s)' % ', '.join(short(ev, x, d + 1) for x in v[:4])
    return str(v)
