"""Symbolic executor for MIR: generates and discharges verification conditions."""
import json
import re
import time
import z3
from values import *
import values as vals
import term as tm
import lemmas
Z64 = tm.bvc(64, 0)

FACTS = {}        # term -> list of facts included whenever the term occurs in a query


class SymLoop(Exception):
    """`next` on an iterator of symbolic length: the enclosing loop must be summarised."""

    def __init__(self, frame, header, itloc, it):
        self.frame, self.header, self.itloc, self.it = frame, header, itloc, it


class NeedDrop(Unsupported):
    """An iterator over flattened groups is advanced: the enclosing loop has to relate it to its own counter."""

    def __init__(self, obj, proj):
        Unsupported.__init__(self, 'next on a flattened sequence')
        self.obj, self.proj = obj, proj


class State:
    __slots__ = ('objs', 'pc', 'pcset')

    def __init__(self, objs=None, pc=(), pcset=frozenset()):
        self.objs = objs if objs is not None else {}
        self.pc, self.pcset = pc, pcset

    def copy(self):
        return State(dict(self.objs), self.pc, self.pcset)

    def add(self, c):
        if c is TRUE:
            return self
        if c.op == 'and':
            for x in c.args:
                self.add(x)
            return self
        if c not in self.pcset:
            self.pc = self.pc + (c,)
            self.pcset = self.pcset | {c}
        return self


class Frame:
    _n = 0

    def __init__(self, fn):
        self.fn = fn
        self.locals = {}
        Frame._n += 1
        self.id = Frame._n


class Info:
    __slots__ = ('callee', 'name', 'argtys', 'ty', 'frame', 'bb')

    def targs(self):
        return self.callee.get('a', [])


def fact(t, f):
    FACTS.setdefault(t, [])
    if f not in FACTS[t]:
        FACTS[t].append(f)


vals.FACT = fact


def gather_facts(terms):
    seen, out, stack = set(), [], list(terms)
    outset = set()
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        stack.extend(t.args)
        if t.op == 'lam':
            continue
        if t.op == 'len':
            f = ult(t, bvc(64, 1 << 60))
            if f not in outset:
                outset.add(f)
                out.append(f)
        if t.op == 'discr':
            dom = vals.DISCR.get(vals.dpath(t.args[0]))
            if dom is not None:
                f = or_(*[eq(t, bvc(t.sort, d)) for d in sorted(dom)])
                if f is not TRUE and f not in outset:
                    outset.add(f)
                    out.append(f)
        for f in FACTS.get(t, ()):
            if f not in outset:
                outset.add(f)
                out.append(f)
                stack.append(f)
    return out


def split_lit(c):
    return c


class Solver:
    def __init__(self, timeout_ms=8000):
        self.z = tm.Z()
        self.timeout = timeout_ms
        self.n = 0
        self.time = 0.0
        self.cache = {}
        self.dump = None
        self.last_model = None
        self.lemmas = True

    def check(self, conds, want_model=False):
        """sat / unsat / unknown for the conjunction."""
        conds = [c for c in conds if c is not TRUE]
        if any(c is FALSE for c in conds):
            return 'unsat'
        key = frozenset(conds)
        for c in conds:
            if not_(c) in key:
                return 'unsat'
        if not want_model and key in self.cache:
            return self.cache[key]
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', self.timeout)
        facts = gather_facts(conds)
        if self.lemmas:
            more = lemmas.facts(conds + facts)
            if more:
                facts = gather_facts(conds + facts + more)
                more = lemmas.facts(conds + facts + more)
            facts = facts + more
        for c in conds + facts:
            s.add(self.z.tr(c))
        r = str(s.check())
        self.n += 1
        self.time += time.time() - t0
        if self.dump is not None and r == 'unsat':
            self.dump(s)
        if r == 'sat' and want_model:
            self.last_model = s.model()
        self.cache[key] = r
        return r

    def valid(self, pc, goal):
        """True if pc implies goal."""
        if goal is TRUE:
            return 'unsat'
        return self.check(list(pc) + [not_(goal)])


def conjuncts(cs):
    out = []
    for c in cs:
        if c.op == 'and':
            out += conjuncts(c.args)
        elif c is not TRUE:
            out.append(c)
    return out


def weaken(ds):
    """A | B for conjunctions: A & x | A & !x is A, and A | A & x is A."""
    ds = list(dict.fromkeys(ds))
    again = True
    while again:
        again = False
        for a in ds:
            for b in ds:
                if a is b:
                    continue
                m = None
                if a <= b:
                    m = a
                else:
                    x, y = a - b, b - a
                    if len(x) == len(y) == 1 and not_(next(iter(x))) is next(iter(y)):
                        m = a & b
                if m is not None:
                    ds = [d for d in ds if d is not a and d is not b and d != m] + [m]
                    again = True
                    break
            if again:
                break
    return ds


class Ex:
    def __init__(self, d, models, contracts=None):
        self.fns = d['fns']
        self.byname = {}
        self.byname_all = {}
        for f in self.fns:
            if f and f.get('identity') and 'promoted' not in f:
                self.byname.setdefault(f['p'], f)
            if f:
                self.byname_all.setdefault(f['p'], f)
        self.models = models
        self.contracts = contracts or {}
        self.nocontract = set()
        self.sol = Solver()
        self.panics = []
        self.npanic_checks = 0
        self.used_contracts = set()
        self.inlined = set()
        self.auto_ufs = set()
        self.used_models = set()
        self.nobj = 0
        self.depth = 0
        self.steps = 0
        self.max_steps = 400000
        self.deadline = None
        self.quiet_panics = 0
        self.allowed = ()
        self.events = []

    # ---------------------------------------------------------- helpers
    def alloc(self, st, v):
        self.nobj += 1
        st.objs[self.nobj] = v
        return self.nobj

    def feasible(self, st, c=TRUE):
        if c is FALSE:
            return False
        if c in st.pcset:
            return True
        if not_(c) in st.pcset:
            return False
        return self.sol.check(list(st.pc) + [c]) != 'unsat'

    def implied(self, st, c):
        if c is TRUE or c in st.pcset:
            return True
        if c is FALSE:
            return False
        return self.sol.check(list(st.pc) + [not_(c)]) == 'unsat'

    def resolve(self, v, st):
        while isinstance(v, Ite):
            if v.c in st.pcset:
                v = v.a
            elif not_(v.c) in st.pcset:
                v = v.b
            else:
                break
        return v

    def panic(self, st, msg, where):
        self.npanic_checks += 1
        if self.quiet_panics:
            return
        if not self.feasible(st):
            return
        self.panics.append((st, msg, where))

    def mark(self):
        return len(self.panics), self.npanic_checks

    def rollback(self, m):
        del self.panics[m[0]:]
        self.npanic_checks = m[1]

    # ---------------------------------------------------------- memory
    def read_proj(self, v, proj, st):
        for i, p in enumerate(proj):
            v = self.resolve(v, st)
            k = p[0]
            if k == 'f':
                if isinstance(v, (Ref, RefV)):
                    v = self.deref(v, st)
                v = project(v, p[1], p[2], p[3])
            elif k == 'x':
                v = seq_at(as_seq(v), p[1])
            elif k == 's':
                v = seq_slice(as_seq(v), p[1], p[2])
            elif k == 'd':
                v = self.deref(v, st)
            else:
                raise Unsupported('projection %r' % (p,))
        return v

    def deref(self, v, st):
        v = self.resolve(v, st)
        if isinstance(v, RefV):
            return v.v
        if isinstance(v, Ref):
            return self.read(st, v.obj, v.proj)
        if isinstance(v, Ite):
            return vite(v.c, self.deref(v.a, st), self.deref(v.b, st))
        if isinstance(v, (Opq, Seq, Adt, Clo, FnItem, It)):
            return v          # Box<T> is represented by its content
        raise Unsupported('deref of %r' % (v,))

    def full_deref(self, v, st):
        v = self.resolve(v, st)
        n = 0
        while isinstance(v, (Ref, RefV)) or (isinstance(v, Ite) and isinstance(v.a, (Ref, RefV))):
            v = self.resolve(self.deref(v, st), st)
            n += 1
        return v

    def read(self, st, obj, proj):
        v = st.objs.get(obj, UNINIT)
        v = self.read_proj(v, proj, st)
        return v

    def write(self, st, obj, proj, val):
        cur = st.objs.get(obj, UNINIT)
        # follow pointers in the middle of the projection
        v = cur
        for i, p in enumerate(proj):
            if p[0] == 'd':
                v2 = self.resolve(v, st)
                if isinstance(v2, Ref):
                    return self.write(st, v2.obj, v2.proj + tuple(proj[i + 1:]), val)
                if isinstance(v2, RefV):
                    raise Unsupported('write through a snapshot reference')
                continue
            if isinstance(v, Uninit):
                break
            v = self.read_proj(v, (p,), st)
        st.objs[obj] = self.upd(cur, tuple(p for p in proj if p[0] != 'd'), val, st)

    def upd(self, v, proj, val, st):
        if not proj:
            return val
        v = self.resolve(v, st)
        p = proj[0]
        if p[0] == 'f':
            if isinstance(v, Adt):
                fs = list(v.fs)
                fs[p[1]] = self.upd(fs[p[1]], proj[1:], val, st)
                return Adt(v.ty, v.var, fs)
            if isinstance(v, Tup):
                fs = list(v.fs)
                fs[p[1]] = self.upd(fs[p[1]], proj[1:], val, st)
                return Tup(fs)
            if isinstance(v, Clo):
                fs = list(v.caps)
                fs[p[1]] = self.upd(fs[p[1]], proj[1:], val, st)
                return Clo(v.fn, fs)
            if isinstance(v, Opq):
                return self.upd(self.expand(v, p[3], st), proj, val, st)
            if isinstance(v, Ite):
                return vite(v.c, self.upd(v.a, proj, val, st), self.upd(v.b, proj, val, st))
            raise Unsupported('field write into %r' % (v,))
        if p[0] == 'x':
            s = as_seq(v)
            i = p[1]
            c = s.concrete()
            if c is not None and is_c(i):
                if i.data >= len(c):
                    raise Unsupported('write out of bounds')
                c = list(c)
                c[i.data] = self.upd(c[i.data], proj[1:], val, st)
                return Seq([('lit', c)], s.ety)
            nv = self.upd(seq_at(s, i), proj[1:], val, st) if len(proj) > 1 else val
            if c is not None:
                return Seq([('lit', [vite(eq(i, bvc(64, j)), nv, e) for j, e in enumerate(c)])], s.ety)
            # store(s, i, v)
            t = mk('store', (to_term(s), i, to_term(nv)), 'U')
            return Opq(t, seq_ty(s.ety))
        if p[0] == 's':
            s = as_seq(v)
            n = seq_len(s)
            sub = seq_slice(s, p[1], p[2])
            new = as_seq(self.upd(sub, proj[1:], val, st))
            return seq_concat(seq_concat(seq_slice(s, bvc(64, 0), p[1]), new), seq_slice(s, p[2], n))
        raise Unsupported('write projection %r' % (p,))

    def expand(self, v, var, st):
        t = TY[v.ty] if v.ty is not None else None
        if t is None:
            raise Unsupported('expand opaque value of unknown type')
        if t['k'] == 'tuple':
            return Tup([project(v, i, e) for i, e in enumerate(t['e'])])
        if t['k'] == 'closure':
            raise Unsupported('expand closure')
        ft = field_types(v.ty, var)
        if ft is None:
            raise Unsupported('expand %s' % t['s'])
        return Adt(v.ty, var, [project(v, i, e, var) for i, e in enumerate(ft)])

    # places -----------------------------------------------------------
    def place_ty(self, fr, pl):
        t = fr.fn['l'][pl[0]]
        for p in pl[1]:
            if p == '*':
                x = TY[t]
                t = x['e'] if x['k'] in ('ref', 'ptr') else x['a'][0]
            elif p in ('o', 'u'):
                pass
            elif p[0] == 'f':
                t = p[2]
            elif p[0] in ('i', 'c'):
                t = elem_type(t)
            elif p[0] == 's':
                t = seq_ty(elem_type(t))
        return t

    def loc(self, fr, pl, st):
        """(obj, proj) or ('val', value)."""
        obj, proj = fr.locals[pl[0]], ()
        val = None
        var = 0
        for p in pl[1]:
            if p == '*':
                v = val if val is not None else self.read(st, obj, proj)
                v = self.resolve(v, st)
                if isinstance(v, Ref):
                    obj, proj, val = v.obj, v.proj, None
                elif isinstance(v, RefV):
                    val = v.v
                elif isinstance(v, Ite):
                    val = self.deref(v, st)
                elif isinstance(v, Uninit):
                    raise Unsupported('deref of uninitialised local')
                elif val is None:
                    proj = proj + (('d',),)
                var = 0
                continue
            if p in ('o', 'u'):
                continue
            if p[0] == 'v':
                var = p[1]
                continue
            if p[0] == 'f':
                q = ('f', p[1], p[2], var)
                var = 0
            elif p[0] == 'i':
                q = ('x', self.read(st, fr.locals[p[1]], ()))
            elif p[0] in ('c', 's'):
                s = as_seq(val if val is not None else self.read(st, obj, proj))
                n = seq_len(s)
                if p[0] == 'c':
                    q = ('x', bvsub(n, bvc(64, p[1])) if p[3] else bvc(64, p[1]))
                else:
                    q = ('s', bvc(64, p[1]), bvsub(n, bvc(64, p[2])) if p[3] else bvc(64, p[2]))
            else:
                raise Unsupported('place projection %r' % (p,))
            if val is not None:
                val = self.read_proj(val, (q,), st)
            else:
                proj = proj + (q,)
        if val is not None:
            return ('val', val)
        return (obj, proj)

    def rd(self, fr, pl, st):
        l = self.loc(fr, pl, st)
        if l[0] == 'val':
            return l[1]
        v = self.read(st, l[0], l[1])
        if isinstance(v, Uninit):
            raise Unsupported('read of uninitialised place in %s' % fr.fn['p'])
        return v

    def wr(self, fr, pl, st, v):
        if len(pl[1]) > 1 and pl[1][0] == '*':
            t = TY[fr.fn['l'][pl[0]]]
            if t['k'] == 'ptr' and adt_name(t['e']) == 'std::mem::MaybeUninit' and all(p[0] == 'f' for p in pl[1][1:]):
                pl = [pl[0], ['*']]         # the union and its ManuallyDrop hold just the value
        l = self.loc(fr, pl, st)
        if l[0] == 'val':
            raise Unsupported('write to a snapshot in %s' % fr.fn['p'])
        obj, proj = l
        cur = st.objs.get(obj, UNINIT)
        if isinstance(cur, Uninit) and proj:
            raise Unsupported('partial initialisation')
        self.write(st, obj, proj, v)

    # constants --------------------------------------------------------
    def const(self, c, st):
        k = c['c']
        tid = c.get('t')
        if k == 'int':
            if sort_of(tid) == 'B':
                return boolc(c['v'] != '0')
            return bvc(sort_of(tid), int(c['v']))
        if k == 'zst':
            t = TY[tid]
            if t['k'] == 'tuple':
                return UNIT
            if t['k'] == 'fndef':
                return FnItem({'p': t['p'], 'a': t['a']})
            if t['k'] == 'closure':
                f = self.byname_all.get(t['p'])
                return Clo(f['id'] if f else t['p'], ())
            if t['k'] == 'adt':
                if ADTS[t['p']]['k'] == 'struct':
                    return Adt(tid, 0, [self.const({'c': 'zst', 't': f}, st) for f in t['v'][0]])
                return Adt(tid, 0, ())
            if t['k'] == 'array':
                return Seq([], t['e'])
            return Opq(uf('zst', (), 'U', t['s']), tid)
        if k == 'fn':
            return FnItem(c['f'])
        if k == 'bytes':
            return Seq([('lit', [bvc(8, b) for b in c['v']])], ty('u8'))
        if k == 'str':
            return RefV(Seq([('lit', [bvc(8, b) for b in c['v'].encode()])], ty('u8')))
        if k == 'arr':
            et = c.get('et')
            if et is None and tid is not None:
                et = elem_type(tid)
            return Seq([('lit', [self.const(x, st) for x in c['v']])], et)
        if k == 'tup':
            return Tup([self.const(x, st) for x in c['v']])
        if k == 'adt':
            r = self.const_adt(c, st)
            return r
        if k == 'ref':
            return RefV(self.const(c['v'], st))
        if k == 'static':
            return Opq(uf('static', (), 'U', c['p']), c['t'])
        if k == 'promoted':
            f = self.fns[c['i']]
            outs = self.run_fn(f, [], st)
            if len(outs) != 1:
                raise Unsupported('promoted constant')
            s2, v = outs[0]
            st.objs.update({o: x for o, x in s2.objs.items() if o not in st.objs})
            return v
        if k in ('uneval', 'generic'):
            nm = c['n'] + ''.join(',' + (TY[a]['s'] if isinstance(a, int) else str(a)) for a in c.get('a', []))
            return mkval('const', (), tid, nm)
        if k == 'opaque':
            nm = c.get('n')
            if nm is None:
                raise Unsupported('opaque constant of type %s' % (TY[tid]['s'] if tid is not None else '?'))
            return mkval('const', (), tid, nm)
        raise Unsupported('constant %r' % (c,))

    def const_adt(self, c, st):
        t = TY[c['t']]
        h = self.models.CONST_ADT.get(t['p'])
        if h:
            return h(c)
        if t['p'] in SEQ_ADTS or t['p'] in BOXLIKE:
            if c['v'] and t['p'] == 'std::vec::Vec':
                # an empty const Vec
                return Seq([], elem_type(c['t']))
            raise Unsupported('constant %s' % t['s'])
        return Adt(c['t'], c['var'], [self.const(x, st) for x in c['v']])

    def operand(self, fr, o, st):
        k = o['o']
        if k in ('copy', 'move'):
            return self.rd(fr, o['p'], st)
        if k == 'const':
            return self.const(o['c'], st)
        if k == 'rtc':
            return boolc(o['v'] == 'OverflowChecks')
        raise Unsupported('operand %r' % (o,))

    def operand_ty(self, fr, o):
        if o['o'] in ('copy', 'move'):
            return self.place_ty(fr, o['p'])
        if o['o'] == 'const':
            return o['c'].get('t')
        return ty('bool')

    # rvalues ----------------------------------------------------------
    def rvalue(self, fr, r, st, dty):
        k = r[0]
        if k == 'use':
            return self.operand(fr, r[1], st)
        if k == 'ref':
            l = self.loc(fr, r[2], st)
            if l[0] == 'val':
                return RefV(l[1])
            return Ref(l[0], l[1])
        if k == 'rawptr':
            l = self.loc(fr, r[1], st)
            return RefV(l[1]) if l[0] == 'val' else Ref(l[0], l[1])
        if k == 'repeat':
            v = self.operand(fr, r[1], st)
            if not isinstance(r[2], int):
                raise Unsupported('symbolic array length')
            return Seq([('lit', [v] * r[2])], elem_type(dty))
        if k == 'agg':
            return self.aggregate(fr, r[1], [self.operand(fr, o, st) for o in r[2]], dty)
        if k == 'discr':
            v = self.rd(fr, r[1], st)
            return self.discr(v, sort_of(dty), st)
        if k == 'bin':
            a, b = self.operand(fr, r[2], st), self.operand(fr, r[3], st)
            return self.binop(r[1], a, b, self.operand_ty(fr, r[2]), dty)
        if k == 'un':
            a = self.operand(fr, r[2], st)
            if r[1] == 'Not':
                return not_(a) if a.sort == 'B' else bvnot(a)
            if r[1] == 'Neg':
                return neg(a)
            if r[1] == 'PtrMetadata':
                return seq_len(as_seq(self.full_deref(a, st)))
            raise Unsupported('unary %s' % r[1])
        if k == 'cast':
            return self.cast(fr, r[1], r[2], r[3], st)
        raise Unsupported('rvalue %s %s' % (k, str(r)[:100]))

    def discr(self, v, s, st):
        v = self.resolve(v, st)
        if isinstance(v, Adt):
            p = adt_name(v.ty)
            if p in ADTS:
                return bvc(s, int(ADTS[p]['v'][v.var]['d']))
            return bvc(s, v.var)
        if isinstance(v, Ite):
            return ite(v.c, self.discr(v.a, s, st), self.discr(v.b, s, st))
        if isinstance(v, Opq):
            vals.note_enum(v.t, v.ty)
            return smart('discr', (v.t,), s)
        if isinstance(v, (Ref, RefV)):
            return self.discr(self.deref(v, st), s, st)
        raise Unsupported('discriminant of %r' % (v,))

    def aggregate(self, fr, k, ops, dty):
        if k[0] == 'array':
            return Seq([('lit', ops)], k[1])
        if k[0] == 'tuple':
            return Tup(ops)
        if k[0] == 'adt':
            t = TY[k[1]]
            if k[3] is not None:
                raise Unsupported('union aggregate')
            if t['p'] == 'nonempty::NonEmpty':
                return seq_concat(Seq([('lit', [ops[0]])], elem_type(k[1])), as_seq(ops[1]))
            return Adt(k[1], k[2], ops)
        if k[0] == 'closure':
            return Clo(k[2], ops)
        raise Unsupported('aggregate %r' % (k,))

    def binop(self, op, a, b, aty, dty):
        if not (isinstance(a, T) and isinstance(b, T)):
            raise Unsupported('binary %s on %r' % (op, a))
        sg = TY[aty]['k'] == 'int' if aty is not None else False
        if op in ('Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked'):
            w = a.sort
            if b.sort < w:
                b = zext(w, b)
            elif b.sort > w:
                b = extract(w - 1, 0, b)
            b = bvand(b, bvc(w, w - 1))
            if op.startswith('Shl'):
                return shl(a, b)
            return ashr(a, b) if sg else lshr(a, b)
        if a.sort == 'B':
            f = {'BitAnd': and_, 'BitOr': or_, 'BitXor': lambda x, y: not_(eq(x, y)), 'Eq': eq, 'Ne': lambda x, y: not_(eq(x, y)),
                 'Lt': lambda x, y: and_(not_(x), y), 'Le': lambda x, y: or_(not_(x), y), 'Gt': lambda x, y: and_(x, not_(y)),
                 'Ge': lambda x, y: or_(x, not_(y))}
            return f[op](a, b)
        f = {'Add': bvadd, 'AddUnchecked': bvadd, 'Sub': bvsub, 'SubUnchecked': bvsub, 'Mul': bvmul, 'MulUnchecked': bvmul,
             'BitAnd': bvand, 'BitOr': bvor, 'BitXor': bvxor, 'Eq': eq, 'Ne': lambda x, y: not_(eq(x, y)),
             'Div': sdiv if sg else udiv, 'Rem': srem if sg else urem,
             'Lt': slt if sg else ult, 'Le': sle if sg else ule,
             'Gt': (lambda x, y: slt(y, x)) if sg else (lambda x, y: ult(y, x)),
             'Ge': (lambda x, y: sle(y, x)) if sg else (lambda x, y: ule(y, x))}.get(op)
        if f:
            return f(a, b)
        if op in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
            r, o = arith_overflow(op[:3], a, b, sg)
            return Tup([r, o])
        if op == 'Cmp':
            lt = slt(a, b) if sg else ult(a, b)
            t = dty
            return vite(lt, Adt(t, 0, ()), vite(eq(a, b), Adt(t, 1, ()), Adt(t, 2, ())))
        raise Unsupported('binary %s' % op)

    def cast(self, fr, kind, o, tid, st):
        if kind == 'BoxDerefTransmute' and o['o'] in ('copy', 'move'):
            v = self.read(st, fr.locals[o['p'][0]], ())     # vec![..]: the pointer inside Box::new_uninit's box
            if isinstance(v, Ref):
                return v
        v = self.operand(fr, o, st)
        if kind == 'IntToInt':
            st_ = self.operand_ty(fr, o)
            w = sort_of(tid)
            if isinstance(v, Adt):      # C-like enum
                v = self.discr(v, w, st)
            if isinstance(v, Opq):
                vals.note_enum(v.t, v.ty)
                v = smart('discr', (v.t,), w)
            return int_cast(v, w, st_ is not None and TY[st_]['k'] == 'int')
        if kind.startswith('PointerCoercion') or kind in ('PtrToPtr', 'Subtype', 'FnPtrToPtr'):
            return v
        if kind == 'Transmute':
            st_ = self.operand_ty(fr, o)
            if sort_of(st_) == sort_of(tid) != 'U':
                return v
            if TY[st_]['s'] == TY[tid]['s']:
                return v
            if isinstance(v, Ref) and sort_of(tid) == 64:
                return bvc(64, 4096)        # the address of a live allocation: only its alignment and being non-null are asserted
        raise Unsupported('cast %s of %s to %s' % (kind, TY[self.operand_ty(fr, o)]['s'] if self.operand_ty(fr, o) is not None else '?', TY[tid]['s']))

    # ---------------------------------------------------------- functions
    def cfg(self, fn):
        """natural loops: header -> set of blocks."""
        if 'loops' in fn:
            return fn['loops']
        blocks = fn['b']
        succ = {}
        for i, b in enumerate(blocks):
            succ[i] = [] if b is None else succs(b[1])
        order, seen = [], set()

        def dfs(n):
            stack = [(n, iter(succ[n]))]
            seen.add(n)
            while stack:
                x, it = stack[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y)
                        stack.append((y, iter(succ[y])))
                        break
                else:
                    order.append(x)
                    stack.pop()
        dfs(0)
        rpo = order[::-1]
        pos = {b: i for i, b in enumerate(rpo)}
        pred = {b: [] for b in rpo}
        for b in rpo:
            for s in succ[b]:
                pred[s].append(b)
        dom = {b: set(rpo) for b in rpo}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                nd = set.intersection(*[dom[p] for p in pred[b]]) | {b}
                if nd != dom[b]:
                    dom[b] = nd
                    ch = True
        loops = {}
        for b in rpo:
            for s in succ[b]:
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    stack = [b]
                    while stack:
                        x = stack.pop()
                        if x not in body:
                            body.add(x)
                            stack.extend(pred[x])
        fn['loops'] = loops
        return loops

    def run_fn(self, fn, args, st):
        """Inline execution of a body.  Returns [(state, value)]."""
        if 'b' not in fn:
            raise Unsupported('no body for %s' % fn['p'])
        if self.depth > 60:
            raise Unsupported('inlining too deep at %s' % fn['p'])
        fr = Frame(fn)
        # spread arguments of closures called through the Fn traits are prepared by call_closure
        if len(args) != fn['n']:
            raise Unsupported('arity of %s: %d vs %d' % (fn['p'], len(args), fn['n']))
        for i in range(len(fn['l'])):
            if 1 <= i <= len(args):
                fr.locals[i] = self.alloc(st, self.retag(args[i - 1], fn['l'][i]))
            else:
                fr.locals[i] = self.alloc(st, UNINIT)
        self.depth += 1
        try:
            outs = self.run_blocks(fr, 0, st, None)
        finally:
            self.depth -= 1
        res = []
        for o in outs:
            assert o[0] == 'ret', o[0]
            s = o[1]
            v = s.objs.get(fr.locals[0], UNINIT)
            if isinstance(v, Uninit):
                v = UNIT
            res.append((s, v))
        return res

    def retag(self, v, tid):
        """Give a value of statically unknown type the type the callee declares."""
        if isinstance(v, Opq) and v.ty is None and tid is not None:
            t = TY[tid]
            if t['k'] in ('ref', 'ptr'):
                return RefV(self.retag(v, t['e']))
            if t['k'] == 'tuple':
                return v
            return from_term(v.t, tid)
        if isinstance(v, RefV) and isinstance(v.v, Opq) and v.v.ty is None and TY[tid]['k'] == 'ref':
            return RefV(self.retag(v.v, TY[tid]['e']))
        if tid is None:
            return v
        if isinstance(v, Adt):
            ft = field_types(tid, v.var)
        elif isinstance(v, Tup):
            ft = TY[tid]['e'] if TY[tid]['k'] == 'tuple' else None
        else:
            return v
        if ft is None or len(ft) != len(v.fs):
            return v
        fs = [self.retag(x, f) for x, f in zip(v.fs, ft)]
        if all(x is y for x, y in zip(fs, v.fs)):
            return v
        return Adt(v.ty, v.var, fs) if isinstance(v, Adt) else Tup(fs)

    def run_blocks(self, fr, bb, st, stop, entering=True):
        """Explore from bb.  stop: (header, body) of a loop being summarised.
        Outcomes: ('ret', st), ('back', st), ('leave', st, bb)."""
        loops = self.cfg(fr.fn)
        outs = []
        work = [(bb, st, True)]
        while work:
            b, s, first = work.pop()
            self.steps += 1
            if self.steps > self.max_steps:
                raise Unsupported('step budget exhausted in %s' % fr.fn['p'])
            if self.deadline and self.steps % 50 == 0 and time.time() > self.deadline:
                raise Unsupported('time budget exhausted in %s' % fr.fn['p'])
            if stop is not None and not first:
                if b == stop[0]:
                    outs.append(('back', s))
                    continue
                if b not in stop[1]:
                    outs.append(('leave', s, b))
                    continue
            if b in loops and not first and (stop is None or b != stop[0]) or (b in loops and first and stop is None and not entering):
                outs.extend(self.enter_loop(fr, b, loops[b], s, stop))
                continue
            for nb, ns in self.block(fr, b, s):
                if nb == 'ret':
                    outs.append(('ret', ns))
                else:
                    work.append((nb, ns, False))
        return outs

    def enter_loop(self, fr, h, body, st, stop):
        """A loop is reached from outside: unroll it concretely if it can be, else summarise it."""
        m = self.mark()
        base = st.copy()
        try:
            outs = self.unroll(fr, h, body, st)
        except SymLoop as e:
            if e.frame is not fr or e.header != h:
                raise
            self.rollback(m)
            outs = self.summarise_mir(fr, h, body, base, e)
        res = []
        for o in outs:
            if o[0] == 'ret':
                res.append(o)
            else:
                # continue after the loop, in the context of the enclosing exploration
                _, s, b = o
                if stop is not None and b == stop[0]:
                    res.append(('back', s))
                elif stop is not None and b not in stop[1]:
                    res.append(('leave', s, b))
                else:
                    loops = self.cfg(fr.fn)
                    if b in loops:
                        res.extend(self.enter_loop(fr, b, loops[b], s, stop))
                    else:
                        res.extend(self.run_blocks(fr, b, s, stop))
        return res

    def unroll(self, fr, h, body, st):
        res = []
        cur = [st]
        n = 0
        while cur:
            n += 1
            if n > 3000:
                raise Unsupported('loop in %s does not unroll' % fr.fn['p'])
            nxt = []
            for s in cur:
                for o in self.run_blocks(fr, h, s, (h, body)):
                    (nxt if o[0] == 'back' else res).append(o)
            cur = [o[1] for o in nxt]
            if len(cur) > 1:
                cur = [self.merge_states(st, cur)]
            if len(res) > 64:
                res = self.merge_outs(st, res)
            if n > 2 and cur and not self.feasible(cur[0]):
                cur = []
            # a loop with no iterator whose exit is undecided: havoc it
            if n == 2 and cur and res and not self.iterates(fr, body):
                return self.havoc_loop(fr, h, body, st)
        return res

    def iterates(self, fr, body):
        for b in body:
            t = fr.fn['b'][b][1]
            if t[0] == 'call':
                f = t[1]
                p = f['c']['f']['p'] if f['o'] == 'const' and f['c']['c'] == 'fn' else ''
                if p.split('::')[-1] in ('next', 'next_back'):
                    return True
        return False

    def merge_outs(self, st, res):
        groups = {}
        for o in res:
            groups.setdefault((o[0], o[2] if len(o) > 2 else None), []).append(o[1])
        return [(k[0], self.merge_states(st, ss)) + ((k[1],) if k[1] is not None else ()) for k, ss in groups.items()]

    def delta(self, base, s):
        return [c for c in s.pc if c not in base.pcset]

    def merge_states(self, base, states, vals_=None):
        """Join several continuations of base."""
        if len(states) == 1:
            return states[0] if vals_ is None else (states[0], vals_[0])
        ds = [and_(*self.delta(base, s)) for s in states]
        out = State({}, base.pc, base.pcset)
        tot = or_(*ds)
        if tot is not TRUE and self.sol.check(list(base.pc) + [not_(tot)]) != 'unsat':
            out.add(tot)
        allobjs = set()
        for s in states:
            allobjs |= s.objs.keys()
        for o in allobjs:
            vs = [(d, s.objs[o]) for d, s in zip(ds, states) if o in s.objs]
            v = vs[-1][1]
            for d, x in reversed(vs[:-1]):
                if x is not v:
                    if isinstance(x, Uninit):
                        continue
                    if isinstance(v, Uninit):
                        v = x
                        continue
                    v = vite(d, x, v)
            out.objs[o] = v
        if vals_ is None:
            return out
        v = vals_[-1]
        for d, x in reversed(list(zip(ds[:-1], vals_[:-1]))):
            v = vite(d, x, v)
        return out, v

    def choose(self, ds, vs):
        """The value of the path taken, for disjoint paths given by their conjuncts.  Paths with the same
        value are one case, of the weakest condition found."""
        groups = []
        for d, v in zip(ds, vs):
            for g in groups:
                if vsame(g[1], v):
                    g[0].append(d)
                    break
            else:
                groups.append(([d], v))
        v = groups[-1][1]
        for d, x in reversed(groups[:-1]):
            v = vite(or_(*[and_(*c) for c in weaken(d)]), x, v)
        return v

    def merge_calls(self, base, outs):
        if len(outs) <= 1:
            return outs
        s, v = self.merge_states(base, [o[0] for o in outs], [o[1] for o in outs])
        return [(s, v)]

    # ---------------------------------------------------------- loop summaries
    def diff(self, a, b, path=()):
        if vsame(a, b):
            return []
        if isinstance(a, Adt) and isinstance(b, Adt) and a.var == b.var and len(a.fs) == len(b.fs):
            r = []
            for i, (x, y) in enumerate(zip(a.fs, b.fs)):
                ft = field_types(a.ty, a.var) if a.ty is not None else None
                r += self.diff(x, y, path + (('f', i, ft[i] if ft else None, a.var),))
            return r
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.fs) == len(b.fs):
            r = []
            for i, (x, y) in enumerate(zip(a.fs, b.fs)):
                r += self.diff(x, y, path + (('f', i, None, 0),))
            return r
        if isinstance(a, Clo) and isinstance(b, Clo) and a.fn == b.fn:
            r = []
            for i, (x, y) in enumerate(zip(a.caps, b.caps)):
                r += self.diff(x, y, path + (('f', i, None, 0),))
            return r
        if isinstance(a, Opq) and isinstance(b, Adt) and a.ty is not None and TY[a.ty]['k'] == 'adt' and \
                ADTS[TY[a.ty]['p']]['k'] == 'struct' and field_types(a.ty, 0) is not None and len(field_types(a.ty, 0)) == len(b.fs):
            return self.diff(self.expand(a, 0, None), b, path)
        return [path]

    def placeholder(self, v):
        if isinstance(v, T):
            return fresh('st', v.sort)
        if isinstance(v, (Opq, Adt)):
            # the type invariant is an invariant of the loop (checked in loop_invariants)
            r = Opq(fresh('st', 'U'), v.ty)
            from_term(r.t, v.ty)
            return r
        if isinstance(v, Seq):
            return Opq(fresh('st', 'U'), seq_ty(v.ety))
        if isinstance(v, RefV):
            return RefV(self.placeholder(v.v))
        if isinstance(v, Ite):
            return self.placeholder(v.a)
        if isinstance(v, Tup):
            return Tup([self.placeholder(x) for x in v.fs])
        raise Unsupported('loop-carried %r' % (v,))

    def invariant_owner(self, st, ob, p):
        """The outermost part of ob around p whose type has an invariant."""
        v = st.objs.get(ob)
        for i in range(len(p)):
            if isinstance(v, Adt) and v.ty is not None and TY[v.ty]['k'] == 'adt' and TY[v.ty]['p'] in vals.INV and TY[v.ty]['p'] not in vals.INV_OFF:
                return p[:i]
            if p[i][0] != 'f':
                break
            v = self.read(st, ob, p[:i + 1])
        return None

    def type_inv(self, st, ob, p):
        v = self.read(st, ob, p)
        if isinstance(v, Adt):
            return [c for c in vals.INV[TY[v.ty]['p']](v) if c is not TRUE]
        return [c if pth is TRUE else implies(pth, c) for lab, c, pth in self.inv_obligations(v)]

    def seq_valued(self, v):
        return isinstance(v, Seq) or isinstance(v, Opq) and v.ty is not None and is_seq_type(v.ty)

    def hyp_facts(self, st, h, k, st0):
        """The candidate invariant h of a loop, before its round k."""
        o, p, kind = h
        if kind == 'inv':
            return self.type_inv(st, o, p)
        v = self.read(st, o, p)
        if kind == 'count':          # a counter that starts at 0 grows by at most one in a round
            return [ule(v, k)] if isinstance(v, T) else [FALSE]
        return [eq(seq_len(as_seq(v)), seq_len(as_seq(self.read(st0, o, p))))]

    def loop_invariants(self, st, v, what):
        if self.quiet_panics:
            return
        for lab, g, pth in self.inv_obligations(self.deep(v, st)):
            if lab in vals.INV_OFF:
                continue
            self.npanic_checks += 1
            if not self.implied(st, implies(pth, g)):
                self.panic(st.copy().add(pth).add(not_(g)), 'type invariant of %s of a value carried by a loop (%s)' % (lab, what), None)

    def ph_vars(self, v):
        return [t for t in vfv(v)]

    def summarise(self, st0, n, step):
        """step(st, k) -> [('back', st) | ('exit', st, payload)].
        Inductive summary of `for k in 0..n`: returns (exits, after) where exits is a list of
        (state, payload) and after the state when every iteration went round."""
        mod = {}
        drops = {}
        nohyp = set()
        for rnd in range(12):
            k = fresh('k', 64)
            st = st0.copy()
            st.add(ult(k, n))
            for (o, p), ph in mod.items():
                self.write(st, o, p, ph)
            # candidate invariants of the loop: the type invariants of the values it updates in place
            hyps = set()
            for (o, p) in mod:
                q = self.invariant_owner(st, o, p)
                if q is not None:
                    hyps.add((o, q, 'inv'))
                v0 = self.read(st0, o, p)
                if v0 is Z64:
                    hyps.add((o, p, 'count'))
                elif self.seq_valued(v0):
                    hyps.add((o, p, 'len'))
            hyps -= nohyp
            for h in hyps:
                for c in self.hyp_facts(st, h, k, st0):
                    st.add(c)
            for (o, p), S in drops.items():
                self.write(st, o, p, It(('flatdrop', S, k)))
            start = st.copy()
            m = self.mark()
            try:
                outs = step(st, k)
            except NeedDrop as e:
                l = (e.obj, e.proj)
                S = self.flat_source(self.read(st0, e.obj, e.proj), n) if e.obj in st0.objs and l not in drops else None
                if S is None:
                    raise
                self.rollback(m)
                drops[l] = S
                continue
            new = {}
            for o in outs:
                if o[0] != 'back':
                    continue
                s = o[1]
                for ob, v0 in start.objs.items():
                    v1 = s.objs.get(ob)
                    if v1 is None or v1 is v0 or isinstance(v0, Uninit) or isinstance(v1, Uninit):
                        continue
                    for p in self.diff(v0, v1):
                        if any(q[0] == ob and [x[:2] for x in q[1]] == [x[:2] for x in p] for q in drops):
                            continue
                        if not any(q[0] == ob and p[:len(q[1])] == q[1] for q in mod):
                            new[(ob, p)] = True
            if not new:
                nxt = bvadd(k, bvc(64, 1))
                lost = {h for h in hyps for s, j in [(st0, Z64)] + [(o[1], nxt) for o in outs if o[0] == 'back'] if not all(self.implied(s, c) for c in self.hyp_facts(s, h, j, st0))}
                if not lost:
                    break
                nohyp |= lost
                self.rollback(m)
                continue
            self.rollback(m)
            for (ob, p) in new:
                # drop finer locations that are now covered
                for q in list(mod):
                    if q[0] == ob and q[1][:len(p)] == p:
                        del mod[q]
                init = self.read(st0, ob, p)
                S = self.flat_source(init, n)
                if S is not None:
                    drops[(ob, p)] = S
                    continue
                mod[(ob, p)] = self.placeholder(init)
        else:
            raise Unsupported('loop summary does not converge')
        for l, S in drops.items():
            for o in outs:
                self.check_drop(o[1], self.read(o[1], l[0], l[1]), S, k, o[0] == 'back')
                self.write(o[1], l[0], l[1], It(('flatdrop', S, k)))
        backs = [o[1] for o in outs if o[0] == 'back']
        exits = [o for o in outs if o[0] == 'exit']
        for l in mod:
            self.loop_invariants(st0, self.read(st0, l[0], l[1]), 'on entry')
            for s in backs:
                self.loop_invariants(s, self.read(s, l[0], l[1]), 'after one round')
        # combined updates; the length of a sequence updated in place does not change
        fixed = {}
        for h in hyps - nohyp if n.op == 'c' or not self.implied(st0, eq(n, Z64)) else ():
            ph = mod.get((h[0], h[1])) if h[2] == 'len' else None
            if isinstance(ph, Opq):
                fixed[smart('len', (ph.t,), 64)] = seq_len(as_seq(self.read(st0, h[0], h[1])))
        keep_len = (lambda t: tm.rewrite(t, fixed)) if fixed else lambda t: t
        upd = {}
        if backs:
            ds = [frozenset(conjuncts([keep_len(c) for c in self.delta(start, s)])) for s in backs]
            for l in mod:
                vs = [vmap_terms(self.read(s, l[0], l[1]), keep_len) for s in backs]
                upd[l] = self.choose(ds, vs)
        # solve placeholders in dependency order
        solv = {}          # placeholder var -> term as a function of k

        def at(val, j):
            """val with k := j and placeholders solved"""
            val = vsubst(val, {v: t for v, t in solv.items()})
            return vsubst(val, {k: j})
        pend = dict(mod)
        finals = {}
        allph = set()
        for ph in mod.values():
            allph |= set(self.ph_vars(ph))
        progress = True
        while pend and progress:
            progress = False
            for l in list(pend):
                ph = pend[l]
                own = set(self.ph_vars(ph))
                u = vsubst(upd[l], solv) if backs else ph
                deps = (vfv(u) & allph) - own
                if deps:
                    continue
                init = self.read(st0, l[0], l[1])
                F = (lambda ph, u, init: lambda j: self.mkfold(ph, k, u, init, j))(ph, u, init)
                fk = F(k)
                finals[l] = F
                self.bind_ph(ph, fk, solv)
                del pend[l]
                progress = True
        if pend:
            # mutually dependent locations: one joint fold, projected
            ls = list(pend)
            us = [vsubst(upd[l], solv) for l in ls]
            inits = [self.read(st0, l[0], l[1]) for l in ls]
            phs = [pend[l] for l in ls]
            for q, l in enumerate(ls):
                F = (lambda q: lambda j: self.joint_fold(phs, k, us, inits, j, q))(q)
                finals[l] = F
            for q, l in enumerate(ls):
                self.bind_ph(phs[q], finals[l](k), solv)
        # early exits
        res_exits = []
        after = None
        fx = n
        if exits:
            ec = [keep_len(and_(*self.delta(start, o[1]))) for o in exits]
            e_at = or_(*[subst(c, solv) for c in ec])
            fx = mk_first(n, lam(k, e_at))
            for o in exits:
                s = o[1]
                r = State({}, st0.pc, st0.pcset)
                r.add(ult(fx, n))
                memo = {}
                for c in self.delta(start, s):
                    r.add(subst(subst(c, solv), {k: fx}))
                for ob, v in s.objs.items():
                    r.objs[ob] = at(v, fx) if not isinstance(v, Uninit) else v
                # placeholders in locations not touched on this path were havocked: they are solved too
                payload = o[2]
                if isinstance(payload, (V, T)):
                    payload = at(payload, fx)
                if self.feasible(r):
                    res_exits.append((r, payload))
        if backs or not exits or True:
            after = State(dict(st0.objs), st0.pc, st0.pcset)
            if exits:
                after.add(eq(fx, n))
            for l, F in finals.items():
                self.write(after, l[0], l[1], F(n))
            for l, S in drops.items():
                self.write(after, l[0], l[1], It(Seq([], S.ety)))
            for h in hyps:
                for c in self.hyp_facts(after, h, n, st0):
                    after.add(c)
            # temporaries written in the loop are dead
            for s in backs:
                for ob, v0 in start.objs.items():
                    if isinstance(v0, Uninit):
                        after.objs[ob] = UNINIT
            if not self.feasible(after):
                after = None
        return res_exits, after

    def flat_source(self, v, n):
        """An iterator over one group of elements for each of the n iterations of the loop."""
        if isinstance(v, It) and not v.ops and isinstance(v.src, Seq) and len(v.src.segs) == 1 and v.src.segs[0][0] in ('flat', 'lam') and v.src.segs[0][1] is n:
            return v.src
        return None

    def check_drop(self, st, v, S, k, back):
        """The iterator over S, k groups consumed before the iteration, has k+1 groups consumed after it."""
        if isinstance(v, Ite):
            for c, x in ((v.c, v.a), (not_(v.c), v.b)):
                s2 = st.copy().add(c)
                if self.feasible(s2):
                    self.check_drop(s2, x, S, k, back)
            return
        if not (isinstance(v, It) and not v.ops and isinstance(v.src, tuple) and v.src[0] == 'flatdrop' and v.src[1] is S):
            raise Unsupported('iterator advanced in an unexpected way')
        if not back or v.src[2] is bvadd(k, bvc(64, 1)):
            return
        if v.src[2] is k and self.implied(st, eq(self.group_len(S, k), bvc(64, 0))):
            return
        raise Unsupported('iterator not advanced in step with the loop: %r %r' % (self.group_len(S, k), st.pc))

    def group_len(self, S, k):
        g = S.segs[0]
        return bvc(64, 1) if g[0] == 'lam' else seq_len(vsubst(g[3], {g[2]: k}))

    def bind_ph(self, ph, val, solv):
        if isinstance(ph, T):
            solv[ph] = val if isinstance(val, T) else to_term(val)
        elif isinstance(ph, Opq):
            solv[ph.t] = to_term(val)
        elif isinstance(ph, RefV):
            self.bind_ph(ph.v, val.v, solv)
        elif isinstance(ph, Tup):
            for p, v in zip(ph.fs, val.fs):
                self.bind_ph(p, v, solv)
        else:
            raise Unsupported('placeholder %r' % (ph,))

    def joint_fold(self, phs, k, us, inits, j, q):
        pvs = []
        for p in phs:
            x = p.v if isinstance(p, RefV) else p
            pvs.append(x if isinstance(x, T) else x.t)
        body = mk('tup', [to_term(u) for u in us], 'U')
        init = mk('tup', [to_term(u) for u in inits], 'U')
        l = body
        for p in pvs:
            l = lam(p, l)
        l = lam(k, l)
        f = mk('jfold', (j, init, l), 'U')
        ph = phs[q]
        x = ph.v if isinstance(ph, RefV) else ph
        s = x.sort if isinstance(x, T) else 'U'
        t = mk('jget', (f,), s, q)
        if isinstance(x, T):
            return t
        r = from_term(t, x.ty)
        return RefV(r) if isinstance(ph, RefV) else r

    def mkfold(self, ph, k, u, init, j):
        """The value after j iterations of st := u(st, k)."""
        if isinstance(ph, RefV):
            return RefV(self.mkfold(ph.v, k, self.as_v(u), self.as_v(init), j))
        if isinstance(ph, Tup):
            # independent components only
            us = u.fs if isinstance(u, Tup) else [project(u, i, None) for i in range(len(ph.fs))]
            ins = init.fs if isinstance(init, Tup) else [project(init, i, None) for i in range(len(ph.fs))]
            return Tup([self.mkfold(p, k, x, y, j) for p, x, y in zip(ph.fs, us, ins)])
        p = ph if isinstance(ph, T) else ph.t
        if p not in vfv(u):
            if k not in vfv(u):
                return vite(eq(j, bvc(64, 0)), init, u)
            return vite(eq(j, bvc(64, 0)), init, vsubst(u, {k: bvsub(j, bvc(64, 1))}))
        ptype = ph.ty if isinstance(ph, Opq) else None
        W = self.appended(u, p) if isinstance(ph, Opq) else None
        if W is not None and p not in vfv(W):
            ini = as_seq(init)
            kk = fresh('k', 64)
            W2 = vsubst(W, {k: kk})
            if len(W.segs) == 1 and W.segs[0][0] == 'lit' and len(W.segs[0][1]) == 1:
                return Seq(ini.segs + (('lam', j, kk, W2.segs[0][1][0]),), W.ety)
            return Seq(ini.segs + (('flat', j, kk, W2),), W.ety)
        ca = self.cond_append(u, p) if isinstance(ph, Opq) else None
        if ca is not None:
            c, x = ca
            ini = as_seq(init)
            kk, jj = fresh('k', 64), fresh('j', 64)
            w = vsubst(Seq([('lam', ite(c, bvc(64, 1), bvc(64, 0)), jj, x)], ini.ety), {k: kk})
            return Seq(ini.segs + (('flat', j, kk, w),), ini.ety)
        if isinstance(u, Opq) and isinstance(ph, Opq):
            f = linear_fold(p, k, u.t, to_term(init), j)
            if f is not None:
                return from_term(f, ptype)
        ut = to_term(u)
        if ut.sort == 'B':
            g = None
            if ut.op == 'not' and ut.args[0].op == 'and':     # or(p, g)
                xs = [not_(x) for x in ut.args[0].args]
                if p in xs and not any(p in x.fv for x in xs if x is not p):
                    g = or_(*[x for x in xs if x is not p])
                    return or_(init, not_(mk_all(j, lam(k, not_(g)))))
            if ut.op == 'and' and p in ut.args and not any(p in x.fv for x in ut.args if x is not p):
                g = and_(*[x for x in ut.args if x is not p])
                return and_(init, mk_all(j, lam(k, g)))
        l = lam(k, lam(p, ut))
        t = mk_fold(j, to_term(init), l, ut.sort)
        if isinstance(ph, T):
            return t
        return from_term(t, ptype)

    def appended(self, u, p):
        """u is p ++ W, W the same number of elements whichever branch is taken: W."""
        if isinstance(u, Opq) and u.t.op == 'ite':
            u = Ite(u.t.args[0], from_term(u.t.args[1], u.ty), from_term(u.t.args[2], u.ty))
        elif isinstance(u, Opq) and u.t.op == 'seq':
            u = from_term(u.t, u.ty)
        if isinstance(u, Ite):
            a = self.appended(u.a, p)
            b = self.appended(u.b, p) if a is not None else None
            if b is None or p in u.c.fv:
                return None
            if a is b or a.segs == b.segs:
                return a
            xs, ys = [], []
            for w, out in ((a, xs), (b, ys)):
                for g in w.segs:
                    if g[0] != 'lit':
                        return None
                    out += list(g[1])
            if len(xs) != len(ys) or not xs:
                return None
            return Seq([('lit', [vite(u.c, x, y) for x, y in zip(xs, ys)])], a.ety)
        if isinstance(u, Seq):
            g0 = u.segs[0] if u.segs else None
            if g0 and g0[0] == 'lam' and isinstance(g0[3], (Opq, T, RefV)) and p in g0[1].fv:
                e = to_term(g0[3])
                if e.op == 'idx' and e.args[0] is p and e.args[1] is g0[2] and g0[1] is smart('len', (p,), 64):
                    return Seq(u.segs[1:], u.ety)
        return None

    def cond_append(self, u, p):
        """u is `if c { p ++ [x] } else { p }`: (c, x)."""
        if isinstance(u, Opq) and u.t.op == 'ite':
            u = Ite(u.t.args[0], from_term(u.t.args[1], u.ty), from_term(u.t.args[2], u.ty))
        if not isinstance(u, Ite):
            return None
        c, a, b = u.c, u.a, u.b
        if isinstance(a, Opq) and a.t is p:
            c, a, b = not_(c), b, a
        if not (isinstance(b, Opq) and b.t is p) or p in c.fv:
            return None
        if not isinstance(a, Seq) or len(a.segs) != 2:
            return None
        g, h = a.segs
        if g[0] != 'lam' or h[0] != 'lit' or len(h[1]) != 1 or p in vfv(h[1][0]):
            return None
        try:
            e = to_term(g[3])
        except Unsupported:
            return None
        if e.op == 'idx' and e.args[0] is p and e.args[1] is g[2] and g[1] is smart('len', (p,), 64):
            return c, h[1][0]
        return None

    def as_v(self, x):
        return x.v if isinstance(x, RefV) else x

    def summarise_mir(self, fr, h, body, st0, e):
        itloc, it0 = e.itloc, e.it
        iobj, iproj = itloc
        res = []
        # segments of the iterator are consumed one after the other
        states = [st0]
        for seg in self.segments(it0):
            nxt = []
            for s0 in states:
                if seg[0] == 'one':
                    # one concrete element at a time
                    self.write(s0, iobj, iproj, It(('one', seg[1], seg[2]), it0.ops))
                    backs = []
                    for o in self.run_blocks(fr, h, s0, (h, body)):
                        if o[0] == 'back':
                            backs.append(o[1])
                        else:
                            res.append(o)
                    if backs:
                        nxt.append(self.merge_states(s0, backs))
                    continue
                _, n, elem, off = seg

                def step(st, k):
                    self.write(st, iobj, iproj, It(('one', elem(k), bvadd(off, k)), it0.ops))
                    outs = []
                    for o in self.run_blocks(fr, h, st, (h, body)):
                        if o[0] == 'back':
                            cur = self.read(o[1], iobj, iproj)
                            if not (isinstance(cur, It) and cur.src == ('done',)):
                                raise Unsupported('iterator advanced in an unexpected way')
                            self.write(o[1], iobj, iproj, It(('one?',), it0.ops))
                            outs.append(o)
                        else:
                            outs.append(('exit', o[1], o))
                    # make the iterator location invisible to the frame computation
                    return outs
                # keep the iterator object out of the modified set
                probe = s0.copy()
                self.write(probe, iobj, iproj, It(('one?',), it0.ops))
                ex, after = self.summarise(probe, n, step)
                for s, o in ex:
                    self.write(s, iobj, iproj, It(('lost',), it0.ops))
                    res.append((o[0], s) + tuple(o[2:]))
                if after is not None:
                    nxt.append(after)
            states = nxt
        for s in states:
            self.write(s, iobj, iproj, It(('done',), it0.ops))
            for o in self.run_blocks(fr, h, s, (h, body)):
                if o[0] == 'back':
                    raise Unsupported('loop continues after its iterator is exhausted')
                res.append(o)
        return res

    def havoc_loop(self, fr, h, body, st0):
        """A loop without an iterator whose exit is undecided: invariant `true`,
        every location it modifies is unconstrained (partial correctness)."""
        mod = {}
        for rnd in range(8):
            st = st0.copy()
            for (o, p), ph in mod.items():
                self.write(st, o, p, ph)
            start = st.copy()
            m = self.mark()
            outs = self.run_blocks(fr, h, st, (h, body))
            new = {}
            for o in outs:
                if o[0] != 'back':
                    continue
                for ob, v0 in start.objs.items():
                    v1 = o[1].objs.get(ob)
                    if v1 is None or v1 is v0 or isinstance(v0, Uninit) or isinstance(v1, Uninit):
                        continue
                    for p in self.diff(v0, v1):
                        if not any(q[0] == ob and p[:len(q[1])] == q[1] for q in mod):
                            new[(ob, p)] = True
            if not new:
                return [o for o in outs if o[0] != 'back']
            self.rollback(m)
            for (ob, p) in new:
                mod[(ob, p)] = self.placeholder(self.read(st0, ob, p))
        raise Unsupported('loop frame does not converge')

    # ---------------------------------------------------------- iterators
    def segments(self, it):
        """('one', value, index) and ('lam', n, elemfn, offset) pieces of an iterator's source."""
        src = it.src
        out = []
        if isinstance(src, Seq):
            off = bvc(64, 0)
            for g in src.segs:
                if g[0] == 'lit':
                    for v in g[1]:
                        out.append(('one', v, off))
                        off = bvadd(off, bvc(64, 1))
                elif g[0] == 'lam':
                    out.append(('lam', g[1], (lambda g: lambda k: vsubst(g[3], {g[2]: k}))(g), off))
                    off = bvadd(off, g[1])
                else:
                    raise Unsupported('iteration over a flattened sequence')
            return out
        if src[0] == 'repeat':        # ('repeat', n)
            n = src[1]
            if n is None:
                raise Unsupported('unbounded repeat')
            if is_c(n) and n.data <= 256:
                return [('one', UNIT, bvc(64, i)) for i in range(n.data)]
            return [('lam', n, lambda k: UNIT, bvc(64, 0))]
        raise Unsupported('iterator source %r' % (src[0],))

    def run_ops(self, st, ops, v, pos):
        """Push one element through the stages: [('val', st, v) | ('skip', st)]."""
        cur = [('val', st, v)]
        for op in ops:
            nxt = []
            for o in cur:
                if o[0] != 'val':
                    nxt.append(o)
                    continue
                _, s, x = o
                if op[0] == 'map':
                    base = s.copy()
                    rs = self.merge_calls(base, self.call_value(op[1], [x], s, op[2]))
                    nxt += [('val', s2, r) for s2, r in rs]
                elif op[0] == 'repeat_with':
                    base = s.copy()
                    rs = self.merge_calls(base, self.call_value(op[1], [], s, op[2]))
                    nxt += [('val', s2, r) for s2, r in rs]
                elif op[0] == 'enumerate':
                    if any(q[0] in ('filter', 'filter_map', 'flatten_opt') for q in ops[:ops.index(op)]):
                        raise Unsupported('enumerate after filter')
                    nxt.append(('val', s, Tup([pos, x])))
                elif op[0] == 'filter':
                    for s2, r in self.merge_calls(s.copy(), self.call_value(op[1], [RefV(x)], s, ty('bool'))):
                        if self.feasible(s2, r):
                            nxt.append(('val', s2.copy().add(r), x))
                        if self.feasible(s2, not_(r)):
                            nxt.append(('skip', s2.copy().add(not_(r))))
                elif op[0] == 'filter_map':
                    for s2, r in self.merge_calls(s.copy(), self.call_value(op[1], [x], s, op[2])):
                        some = eq(self.discr(r, 64, s2), bvc(64, 1))
                        if self.feasible(s2, some):
                            s3 = s2.copy().add(some)
                            ety = None
                            if op[2] is not None and TY[op[2]]['k'] == 'adt':
                                ety = TY[op[2]]['a'][0]
                            nxt.append(('val', s3, project(self.resolve(r, s3), 0, ety, 1)))
                        if self.feasible(s2, not_(some)):
                            nxt.append(('skip', s2.copy().add(not_(some))))
                elif op[0] == 'scan':
                    # op = ('scan', stateref, f, ty): the state lives in an object
                    for s2, r in self.merge_calls(s.copy(), self.call_value(op[2], [op[1], x], s, op[3])):
                        some = eq(self.discr(r, 64, s2), bvc(64, 1))
                        if not self.implied(s2, some):
                            raise Unsupported('scan that stops')
                        ety = TY[op[3]]['a'][0] if op[3] is not None else None
                        nxt.append(('val', s2.add(some), project(self.resolve(r, s2), 0, ety, 1)))
                elif op[0] == 'const':
                    nxt.append(('val', s, op[1]))
                elif op[0] == 'deref':
                    nxt.append(('val', s, self.deref(x, s) if isinstance(self.resolve(x, s), (Ref, RefV)) else x))
                elif op[0] == 'zipwith':
                    nxt.append(('val', s, Tup([x, seq_at(op[1], pos)])))
                elif op[0] == 'flatten_opt':
                    x = self.resolve(x, s)
                    t = x.ty if isinstance(x, (Opq, Adt)) else None
                    if isinstance(x, Ite):
                        y = x
                        while isinstance(y, Ite):
                            y = y.a
                        t = y.ty if isinstance(y, (Opq, Adt)) else None
                    if t is None or TY[t]['k'] != 'adt' or TY[t]['p'] not in ('std::option::Option', 'std::result::Result'):
                        raise Unsupported('flatten of %r' % (x,))
                    good = 1 if TY[t]['p'] == 'std::option::Option' else 0
                    some = eq(self.discr(x, 64, s), bvc(64, good))
                    if self.feasible(s, some):
                        s3 = s.copy().add(some)
                        nxt.append(('val', s3, project(self.resolve(x, s3), 0, TY[t]['a'][0], good)))
                    if self.feasible(s, not_(some)):
                        nxt.append(('skip', s.copy().add(not_(some))))
                elif op[0] == 'inspect':
                    for s2, r in self.merge_calls(s.copy(), self.call_value(op[1], [RefV(x)], s, None)):
                        nxt.append(('val', s2, x))
                else:
                    raise Unsupported('iterator stage %s' % op[0])
            cur = nxt
        return cur

    def consume(self, it, st, body, merge=True, start=None):
        """Feed every element to body(st, v) -> [('back', st) | ('exit', st, payload)].
        Returns (exits [(st, payload)], after state or None)."""
        if not isinstance(it.src, V) and it.src[0] == 'chain':
            start = bvc(64, 0) if start is None else start
            ex, after = self.consume(It(it.src[1].src, it.src[1].ops + it.ops), st, body, start=start)
            if after is not None:
                if any(o[0] in ('enumerate', 'zipwith') for o in it.ops):
                    ln = self.models.it_len(self, it.src[1], st)
                    if ln is None or any(o[0] in ('enumerate', 'zipwith') for o in it.src[2].ops):
                        raise Unsupported('position in a chain of iterators')
                    start = bvadd(start, ln)
                ex2, after = self.consume(It(it.src[2].src, it.src[2].ops + it.ops), after, body, start=start)
                ex = ex + ex2
            return ex, after
        exits = []
        if start is not None and start is not bvc(64, 0):
            one_ = lambda s, v, pos: one0(s, v, bvadd(start, pos))
        else:
            one_ = lambda s, v, pos: one0(s, v, pos)

        def one0(s, v, pos):
            outs = []
            for o in self.run_ops(s, it.ops, v, pos):
                if o[0] == 'skip':
                    outs.append(('back', o[1]))
                else:
                    outs += body(o[1], o[2])
            return outs
        cur = st
        for seg in self.segments(it):
            if cur is None:
                break
            base = cur.copy()
            if seg[0] == 'one':
                backs = []
                for o in one_(cur, seg[1], seg[2]):
                    if o[0] == 'back':
                        backs.append(o[1])
                    else:
                        exits.append((o[1], o[2]))
                cur = self.merge_states(base, backs) if backs else None
            else:
                _, n, elem, off = seg
                ex, cur = self.summarise(cur, n, lambda s, k: one_(s, elem(k), bvadd(off, k)))
                exits += ex
        return exits, cur

    def collect(self, it, st, ety=None):
        """Collect into a sequence: returns (seq, st)."""
        acc = self.alloc(st, Seq([], ety))

        def body(s, v):
            s.objs[acc] = seq_concat(as_seq(s.objs[acc], ety), Seq([('lit', [v])], ety))
            return [('back', s)]
        ex, after = self.consume(it, st, body)
        r = after.objs[acc]
        r = as_seq(r, ety) if not isinstance(r, Seq) else r
        return r, after

    def alloc_clo(self, st, f):
        """A closure that an iterator stage calls repeatedly lives in an object."""
        f = self.resolve(f, st)
        if isinstance(f, Clo) and f.caps:
            return Ref(self.alloc(st, f))
        return f

    def into_iter(self, v, st):
        v = self.resolve(v, st)
        if isinstance(v, (Ref, RefV)):
            x = self.resolve(self.deref(v, st), st)
            while isinstance(x, (Ref, RefV)):
                v, x = x, self.resolve(self.deref(x, st), st)
            if isinstance(x, It):
                return x
            if isinstance(x, Adt):
                return x
            return It(self.models.elem_refs(self, v, st, False))
        if isinstance(v, Opq) and v.ty is not None and TY[v.ty]['k'] == 'adt' and TY[v.ty]['p'] in SEQ_ADTS:
            return It(as_seq(v))
        return v

    def purify(self, it, st):
        """The sequence of an iterator's elements, when its stages are pure."""
        if isinstance(it.src, Seq) and not it.ops:
            return it.src
        s2 = st.copy()
        before = dict(s2.objs)
        seq, after = self.collect(it, s2)
        own = {op[1].obj for op in it.ops if len(op) > 1 and isinstance(op[1], Ref) and op[0] in ('map', 'filter', 'filter_map', 'inspect')}
        for ob, v in before.items():
            if not isinstance(v, Uninit) and not vsame(after.objs.get(ob), v):
                if ob in own and isinstance(v, Clo) and all(not isinstance(x, Ref) for x in v.caps):
                    st.objs[ob] = after.objs[ob]        # state of a closure that only this iterator owns
                    continue
                raise Unsupported('iterator stages with side effects in a position that needs purity')
        st.objs.update({o: v for o, v in after.objs.items() if o not in st.objs})
        return seq

    # ---------------------------------------------------------- blocks
    def block(self, fr, b, st):
        """Execute one basic block: [(next block or 'ret', state)]."""
        blk = fr.fn['b'][b]
        if blk is None:
            raise Unsupported('cleanup block')
        for s in blk[0]:
            if s[0] == '=':
                dty = self.place_ty(fr, s[1])
                v = self.rvalue(fr, s[2], st, dty)
                self.wr(fr, s[1], st, v)
            elif s[0] == 'sd':
                v = self.rd(fr, s[1], st)
                raise Unsupported('set discriminant')
            else:
                raise Unsupported('statement %s' % s[1])
        t = blk[1]
        k = t[0]
        if k == 'goto':
            return [(t[1], st)]
        if k == 'return':
            return [('ret', st)]
        if k == 'unreachable':
            return []
        if k == 'drop':
            return [(t[2], st)]
        if k == 'switch':
            d = self.operand(fr, t[1], st)
            if not isinstance(d, T):
                raise Unsupported('switch on %r' % (d,))
            res = []
            rest = []
            for v, target in t[2]:
                c = (d if v != '0' else not_(d)) if d.sort == 'B' else eq(d, bvc(d.sort, int(v)))
                rest.append(not_(c))
                if c is FALSE:
                    continue
                if self.feasible(st, c):
                    s2 = st.copy().add(c)
                    res.append((target, s2))
                if c is TRUE:
                    return res
            c = and_(*rest)
            ob = fr.fn['b'][t[3]]
            if c is not FALSE and not (ob is not None and not ob[0] and ob[1][0] == 'unreachable'):
                if self.feasible(st, c):
                    s2 = st.copy()
                    for r in rest:
                        s2.add(r)
                    res.append((t[3], s2))
            return res
        if k == 'assert':
            c = self.operand(fr, t[1], st)
            if not t[2]:
                c = not_(c)
            if c is not TRUE and self.implied(st, c):
                self.npanic_checks += 1
            elif c is not TRUE:
                self.panic(st.copy().add(not_(c)), 'assert %s' % t[3], fr.fn['p'])
                if c is FALSE or not self.feasible(st, c):
                    return []
                st.add(c)
            else:
                self.npanic_checks += 1
            return [(t[4], st)]
        if k == 'call':
            f = t[1]
            argv = [self.operand(fr, a, st) for a in t[2]]
            info = Info()
            info.frame, info.bb = fr, b
            info.argtys = [self.operand_ty(fr, a) for a in t[2]]
            info.ty = self.place_ty(fr, t[3])
            if f['o'] == 'const' and f['c']['c'] == 'fn':
                info.callee = f['c']['f']
                outs = self.call(info.callee, argv, st, info)
            else:
                fv = self.operand(fr, f, st)
                info.callee = {'p': '<fn pointer>', 'a': []}
                outs = self.call_value(fv, argv, st, info.ty)
            res = []
            for s, v in outs:
                if t[4] is None:
                    continue
                self.wr(fr, t[3], s, self.retag(v, info.ty))
                res.append((t[4], s))
            return res
        raise Unsupported('terminator %s' % str(t)[:80])

    # ---------------------------------------------------------- calls
    def call(self, callee, args, st, info):
        name = callee.get('r') or callee['p']
        info.name = name
        p = callee['p']
        if p in ('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call') and \
                not name.startswith('<std::boxed::Box'):
            tup = args[1]
            n = tup.fs if isinstance(tup, Tup) else None
            if n is None:
                tt = TY[info.argtys[1]]
                n = [project(tup, i, e) for i, e in enumerate(tt['e'])]
            return self.call_value(args[0], list(n), st, info.ty)
        if 'shim' in callee and callee['shim'] == 'clone':
            return [(st, self.full_deref_once(args[0], st))]
        c = self.contracts.get(name)
        if c is not None and name not in self.nocontract:
            self.used_contracts.add(name)
            r = c.apply(self, st, args, info)
            if r is not NotImplemented:
                return self.norm(st, r)
        m = self.models.find(name, p)
        if m is not None:
            r = m(self, st, args, info)
            if r is not NotImplemented:
                self.used_models.add(name)
                return self.norm(st, r)
        i = callee.get('i')
        if i is None and callee.get('r') is None:
            f = self.byname_all.get(p)
            # an unresolved trait method: dispatch on the dynamic value where the model says so
            if f is not None and 'b' in f and not self.is_trait_method(p):
                i = f['id']
        if i is not None and 'b' in self.fns[i]:
            fn = self.fns[i]
            self.inlined.add(name)
            return self.run_fn(fn, args, st)
        return self.auto_uf(name, args, st, info)

    def is_trait_method(self, p):
        return p.startswith('<') or p.split('::')[0] in ('std', 'core')

    def full_deref_once(self, v, st):
        return self.deref(v, st)

    def norm(self, st, r):
        if isinstance(r, list):
            return r
        return [(st, r)]

    def uf_name(self, name, info):
        ta = []
        for a in info.callee.get('a', []):
            ta.append(TY[a]['s'] if isinstance(a, int) else str(a))
        return name + ('<%s>' % ','.join(ta) if ta else '')

    def auto_uf(self, name, args, st, info):
        nm = self.uf_name(name, info)
        self.auto_ufs.add(name)
        targs = []
        muts = []
        for i, a in enumerate(args):
            at = info.argtys[i]
            if at is not None and TY[at]['k'] == 'ref' and TY[at]['m'] and isinstance(a, Ref):
                muts.append((i, a, TY[at]['e']))
            v = self.full_deref(a, st)
            if isinstance(v, It):
                v = self.purify(v, st)
            targs.append(to_term(self.deep(v, st)))
        for i, a, ety in muts:
            self.write(st, a.obj, a.proj, mkval('mut%d:' % i + nm, targs, ety))
        return [(st, mkval('ext:' + nm, targs, info.ty))]

    def deep(self, v, st):
        """Replace pointers by what they point to, everywhere inside v."""
        v = self.resolve(v, st)
        if isinstance(v, (Ref, RefV)):
            return self.deep(self.deref(v, st), st)
        if isinstance(v, Adt):
            return Adt(v.ty, v.var, [self.deep(x, st) for x in v.fs])
        if isinstance(v, Tup):
            return Tup([self.deep(x, st) for x in v.fs])
        if isinstance(v, Seq):
            return Seq([(g[0], tuple(self.deep(x, st) for x in g[1])) if g[0] == 'lit' else (g[0], g[1], g[2], self.deep(g[3], st)) for g in v.segs], v.ety)
        if isinstance(v, Ite):
            sa, sb = st.copy().add(v.c), st.copy().add(not_(v.c))
            return vite(v.c, self.deep(v.a, sa), self.deep(v.b, sb))
        if isinstance(v, Clo):
            return Clo(v.fn, [self.deep(x, st) for x in v.caps])
        return v

    def call_value(self, f, args, st, rty):
        f0 = f
        f = self.resolve(f, st)
        ref = None
        while isinstance(f, (Ref, RefV)):
            if isinstance(f, Ref):
                ref = f
            f = self.resolve(self.deref(f, st), st)
        if isinstance(f, Clo):
            fn = self.fns[f.fn]
            self.inlined.add(fn['p'])
            selfty = TY[fn['l'][1]]
            if selfty['k'] == 'ref':
                if ref is None:
                    ref = Ref(self.alloc(st, f))
                a0 = ref
            else:
                a0 = f
            return self.run_fn(fn, [a0] + list(args), st)
        if isinstance(f, PyFn):
            r = f.fn(st, *args)
            return r if isinstance(r, list) else [(st, r)]
        if isinstance(f, FnItem):
            info = Info()
            info.callee = f.callee
            info.frame, info.bb = None, None
            info.ty = rty
            # a tuple-struct constructor used as a function
            c = self.ctor(f.callee, args, rty)
            if c is not None:
                return [(st, c)]
            i = f.callee.get('i')
            info.argtys = list(self.fns[i]['l'][1:1 + len(args)]) if i is not None and 'l' in self.fns[i] else [None] * len(args)
            return self.call(f.callee, list(args), st, info)
        if isinstance(f, Ite):
            outs = []
            for c, x in ((f.c, f.a), (not_(f.c), f.b)):
                if self.feasible(st, c):
                    outs += self.call_value(x, args, st.copy().add(c), rty)
            return outs
        if isinstance(f, Opq):
            targs = [f.t] + [to_term(self.deep(self.full_deref(a, st), st)) for a in args]
            if f.t.op == 'hash_to_curve':
                return [(st, self.models.h2c_call(self, st, f, args, rty))]
            self.auto_ufs.add('call of a caller-supplied function')
            for i, a in enumerate(args):
                if isinstance(a, Ref):
                    cur = self.read(st, a.obj, a.proj)
                    if isinstance(cur, Opq) and getattr(self, 'mutable_objs', None) and a.obj in self.mutable_objs:
                        self.write(st, a.obj, a.proj, Opq(uf('callmut', targs, 'U', i), cur.ty))
            if ref is not None and TY[f.ty]['k'] == 'param':
                self.write(st, ref.obj, ref.proj, Opq(uf('callst', targs, 'U'), f.ty))
            return [(st, mkval('callv', targs, rty))]
        raise Unsupported('call of %r' % (f,))

    def ctor(self, callee, args, rty):
        p = callee['p']
        i = callee.get('i')
        isctor = (i is not None and self.fns[i].get('ctor')) or (i is None and rty is not None and TY[rty]['k'] == 'adt' and p in ctor_names(rty))
        if not isctor:
            return None
        if rty is None:
            return None
        t = TY[rty]
        if t['k'] != 'adt':
            return None
        last = p.split('::')[-1]
        vs = ADTS[t['p']]['v']
        var = 0
        if ADTS[t['p']]['k'] == 'enum':
            for j, x in enumerate(vs):
                if x['n'] == last:
                    var = j
        return Adt(rty, var, args)


def ctor_names(tid):
    p = TY[tid]['p']
    vs = ADTS[p]['v']
    if ADTS[p]['k'] == 'enum':
        return ['%s::%s' % (p, x['n']) for x in vs] + ['%s::<T>::%s' % (p, x['n']) for x in vs]
    return [p]


def seq_ty(ety):
    if ety is None:
        return pseudo('[?]', k='slice', e=None)
    return pseudo('[%s]' % TY[ety]['s'], k='slice', e=ety)


def succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [b for _, b in t[2]] + [t[3]]
    if k == 'drop':
        return [t[2]]
    if k == 'call':
        return [] if t[4] is None else [t[4]]
    if k == 'assert':
        return [t[4]]
    return []


def int_cast(v, w, sg):
    if v.sort == 'B':
        return bv_of_bool(v, w)
    if w == v.sort:
        return v
    if w < v.sort:
        return extract(w - 1, 0, v)
    return sext(w, v) if sg else zext(w, v)


def arith_overflow(op, a, b, sg):
    w = a.sort
    f = {'Add': bvadd, 'Sub': bvsub, 'Mul': bvmul}[op]
    r = f(a, b)
    if op == 'Mul':
        ext = sext if sg else zext
        big = bvmul(ext(2 * w, a), ext(2 * w, b))
        return r, not_(eq(big, ext(2 * w, r)))
    if sg:
        big = f(sext(w + 1, a), sext(w + 1, b))
        return r, not_(eq(big, sext(w + 1, r)))
    if op == 'Add':
        return r, ult(r, a)
    return r, ult(a, b)


def mk_first(n, l):
    """The least index below n satisfying the predicate, or n."""
    body = l.args[0]
    if body is FALSE:
        return n
    if body is TRUE:
        return bvc(64, 0)
    t = mk('first', (n, l), 64)
    fact(t, ule(t, n))
    fact(t, implies(ult(t, n), inst(l, t)))
    return t


tm._REBUILD['first'] = lambda t, a: mk_first(a[0], a[1])


def mk_all(n, l):
    L, s = l.data
    k = fresh('k', 64)
    return eq(mk_first(n, lam(k, not_(inst(l, k)))), n)


def mk_fold(n, init, l, sort):
    if is_c(n) and n.data == 0:
        return init
    return mk('fold', (n, init, l), sort)


tm._REBUILD['fold'] = lambda t, a: mk_fold(a[0], a[1], a[2], t.sort)


def linear_fold(p, k, u, init, j):
    """Sums in the group or the fields: st := st + g(k)."""
    d = lin_parts(u) if u.op == 'lin' else None
    if d is not None:
        one = poly_const('Fq', 1)
        if d.get(p) is one and not any((x is not p and p in x.fv) or p in c.fv for x, c in d.items()):
            r = init
            for x, c in d.items():
                if x is p:
                    continue
                r = g_add(r, gsum(j, k, x, c))
            return r
    if u.op == 'poly':
        field = u.data[0]
        parts = poly_parts(field, u)
        if (p.id,) in parts and parts[(p.id,)][0] == 1:
            rest = {q: v for q, v in parts.items() if q != (p.id,)}
            if not any(p in a.fv for c, at in rest.values() for a in at):
                r = init
                for q, (c, at) in rest.items():
                    r = poly_add(field, r, fsum(field, j, k, poly_build(field, {q: (c, at)})))
                return r
    return None


def gsum(j, k, x, c):
    if k not in x.fv:
        return g_mul(fsum('Fq', j, k, c), x)
    cc = poly_is_const('Fq', c)
    if cc is not None:
        return g_mul(c, mk('gsum', (j, lam(k, x)), 'U'))
    # independent factors could be pulled out; keep the product inside
    return mk('gsum', (j, lam(k, g_mul(c, x))), 'U')


def fsum(field, j, k, t):
    """sum_{k<j} t as a polynomial."""
    r = poly_const(field, 0)
    for q, (c, at) in poly_parts(field, t).items():
        dep = [a for a in at if k in a.fv]
        ind = [a for a in at if k not in a.fv]
        m = poly_const(field, c)
        for a in ind:
            m = poly_mul(field, m, a)
        if dep:
            pd = poly_const(field, 1)
            for a in dep:
                pd = poly_mul(field, pd, a)
            m = poly_mul(field, m, mk('fsum', (j, lam(k, pd)), 'U', field))
        else:
            m = poly_mul(field, m, uf('nat2f', (j,), 'U', field))
        r = poly_add(field, r, m)
    return r
