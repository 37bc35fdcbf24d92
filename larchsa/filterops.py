"""Filters: applying, taking off, resetting, replacing them.

A client makes a few calls; a small model of the filters says which filters
are in force afterwards and for which of them the view was refreshed last.
The view is then compared with what these filters (opaque predicates) let
pass."""
from .values import *
from .viewops import ViewWorld, KIND
from .run import run_operation

C, P, X = Sym('C'), Sym('P'), Sym('X')


class Model:
    """What the calls ought to do."""

    def __init__(self, bank, applied, flips=()):
        self.bank = {n: (KIND[fn], dict(par or {})) for n, fn, par in bank}
        self.applied = list(applied)
        self.flips = flips
        self.pending = False
        self.refresh()
        self.odd = False        # what happens is left open

    def refresh(self):
        self.pending = False
        self.shown = []
        self.flat = False
        for n in self.applied:
            kind, par = self.bank.get(n, (None, {}))
            self.shown.append((kind, bool(par.get('negate')) != (
                kind in self.flips)))
            if par.get('flat'):
                self.flat = True

    def touch(self, refresh, needed=True):
        if not needed:
            if self.pending and refresh:
                self.odd = True
        elif refresh:
            self.refresh()
        else:
            self.pending = True

    def do(self, op):
        """Carry out op; False: it is refused."""
        what, a = op[0], op[1:]
        if what == 'apply':
            name, par, reset, refresh = (a + (None, None, True)[len(a) - 1:])
            if par:
                if name not in self.bank:
                    return False
                self.bank[name] = (self.bank[name][0], dict(par))
            if reset:
                self.applied = []
            need = bool(par)
            if name not in self.applied:
                self.applied.append(name)
                need = True
            self.touch(refresh, need)
        elif what == 'again':
            # the client changes its parameters and hands them over once more
            par = dict(self.bank[a[0]][1])
            par.update(a[1])
            return self.do(('apply', a[0], par))
        elif what == 'unapply':
            name, refresh = (a + (True,))[:2]
            need = name in self.applied
            if need:
                self.applied.remove(name)
            self.touch(refresh, need)
        elif what == 'reset':
            self.applied = []
            self.touch((a + (True,))[0])
        elif what == 'add':
            name, fn, par = (a + (None,))[:3]
            name = name[1:] if name.startswith('!') else name
            if name in self.bank:
                return FALSE
            self.bank[name] = (KIND[fn], dict(par or {}))
            return TRUE
        elif what == 'remove':
            if a[0] not in self.bank:
                return FALSE
            del self.bank[a[0]]
            return TRUE
        return True


class Calls(ViewWorld):
    """Some calls about filters."""

    def __init__(self, prog, names, bank, applied, ops, **kw):
        self.bank, self.applied, self.ops = bank, applied, ops
        m = Model(bank, applied)
        self.answers0 = tuple(k for k, _ in m.shown)
        flips = tuple(k for k, n in m.shown if n)
        m = Model(bank, applied, flips)
        flat = m.flat
        self.expect, self.banks = [], []
        for op in ops:
            self.expect.append(m.do(op))
            self.banks.append(dict(m.bank))
        self.odd = m.odd
        self.model = m
        ViewWorld.__init__(self, prog, names, [], flat=flat, **kw)
        self.answers = self.answers0
        self.after = None
        self.flips = flips
        self.flat_after = m.flat
        self.pars = {}
        self.op = '; '.join(show_op(o) for o in ops)
        if len(applied):
            self.op += ' (%s applied before)' % ', '.join(applied)

    def steady(self, x, get):
        return True

    def untold(self, x, get):
        return False

    def passes(self, F, x):
        return all(k is not None and F(k, x) != n
                   for k, n in self.model.shown)

    # ---- the calls -----------------------------------------------------------
    def start(self, eng, st):
        self.construct = 'ViewTree.' + {
            'apply': 'apply_filter', 'unapply': 'unapply_filter',
            'reset': 'reset_filters'}.get(self.ops[-1][0], 'apply_filter')
        work = [(st, 0, {})]
        out = []
        while work:
            s, i, mine = work.pop()
            if i == len(self.ops):
                out.extend(self.ask(eng, s))
                continue
            op = self.ops[i]
            what, a = op[0], op[1:]
            kw = {}
            o = self.view
            g = dict(s.x['ghost'])
            g['at'] = i
            s.x['ghost'] = g
            if what == 'again':
                meth, args = 'apply_filter', [Const(a[0])]
                r = mine[a[0]]
                c = s.heap[r.a]
                new = dict(a[1])
                s.heap[r.a] = Cont('dict', items=tuple(
                    (k, Const(new.pop(k.v)) if k.v in new else v)
                    for k, v in c.items) + tuple(
                        (Const(k), Const(v)) for k, v in new.items()))
                kw['parameters'] = r
            elif what == 'apply':
                meth, args = 'apply_filter', [Const(a[0])]
                if len(a) > 1 and a[1] is not None:
                    kw['parameters'] = r = self.params(s, a[1])
                    s.roots = tuple(s.roots) + (r.a,)
                    mine = dict(mine)
                    mine[a[0]] = r
                if len(a) > 2 and a[2]:
                    kw['reset'] = TRUE
                if len(a) > 3 and not a[3]:
                    kw['refresh'] = FALSE
            elif what == 'unapply':
                meth, args = 'unapply_filter', [Const(a[0])]
                if len(a) > 1 and not a[1]:
                    kw['refresh'] = FALSE
            elif what == 'reset':
                meth, args = 'reset_filters', []
                if a and not a[0]:
                    kw['refresh'] = FALSE
            elif what == 'add':
                o, meth = self.tree, 'add_filter'
                args = [Const(a[0]), ExtFn(a[1])]
                if len(a) > 2:
                    args.append(self.params(s, a[2]))
            else:
                o, meth, args = self.tree, 'remove_filter', [Const(a[0])]
            want = self.expect[i]
            for t, v in self.call_method(eng, s, o, meth, args, kw):
                if isinstance(v, Exc):
                    if want is not False:
                        out.append((t, v))
                        continue
                elif want is False:
                    self.note(t, 'the call is not refused although there is '
                              'no such filter: %s' % show_op(op))
                elif want in (TRUE, FALSE) and v != want:
                    if isinstance(v, Const):
                        self.note(t, '%s returns %s' % (show_op(op), v))
                    else:
                        t.doubt('answer of %s' % meth)
                work.append((t, i + 1, mine))
        return out

    def note(self, st, text):
        g = dict(st.x['ghost'])
        g['bad'] += (text,)
        st.x['ghost'] = g

    def ask(self, eng, st):
        """Which filters are there, which are applied?"""
        out = []
        for s, v in self.call_method(eng, st, self.view,
                                     'list_applied_filters', []):
            if isinstance(v, Exc):
                out.append((s, v))
                continue
            self.compare(s, v, self.model.applied, 'the applied filters are')
            for t, w in self.call_method(eng, s, self.tree, 'list_filters',
                                         []):
                if not isinstance(w, Exc):
                    self.compare(t, w, list(self.model.bank),
                                 'the filters of the tree are')
                out.append((t, w))
        return out

    def compare(self, st, v, want, what):
        c = st.heap.get(v.a) if isinstance(v, Ref) else None
        if not isinstance(c, Cont) or not c.exact or not all(
                isinstance(i, Const) for i in c.items):
            st.doubt(what)
            return
        got = sorted(i.v for i in c.items)
        if got != sorted(want):
            self.note(st, '%s [%s] and not [%s]' % (
                what, ', '.join(got), ', '.join(sorted(want))))

    def asked(self, st, fn, x, args, kw):
        """Does the function get the parameters of its filter?"""
        if self.building:
            return
        at = st.x['ghost'].get('at')
        bank = self.model.bank if at is None else self.banks[at]
        want = [p for k, p in bank.values() if k == KIND[fn]]
        if len(want) != 1:
            return
        want = want[0]
        got = kw.get('parameters')
        if not want:
            if got is not None and got != NONE:
                c = st.heap.get(got.a) if isinstance(got, Ref) else None
                if isinstance(c, Cont) and c.exact and c.items:
                    self.note(st, 'a filter without parameters gets some')
            return
        c = st.heap.get(got.a) if isinstance(got, Ref) else None
        if got is None:
            self.note(st, 'a filter does not get its parameters')
        elif isinstance(c, Cont) and c.exact:
            have = {k.v: v.v for k, v in c.items if isinstance(v, Const)}
            if have != want:
                self.note(st, 'a filter gets the parameters %s and not %s' % (
                    have, want))
        else:
            st.doubt('parameters of a filter')

    def problems(self, st, v):
        out = [('C14', 'filters not in force', 'after %s, %s' % (
            self.op, t)) for t in st.x['ghost']['bad'][:1]]
        if isinstance(v, Exc):
            out.append(('C14', 'fails', '%s fails with %s at %s' % (
                self.op, v.cls, v.where)))
            return out
        self.obligations += 2
        if out:
            return out
        found = ViewWorld.problems(self, st, v)
        return [q for p, r, t in found for q in (
            (p, r, t), ('C14', 'filters not in force', t))]


def show_op(op):
    what, a = op[0], op[1:]
    return '%s(%s)' % ({'apply': 'apply_filter', 'unapply': 'unapply_filter',
                        'reset': 'reset_filters', 'add': 'add_filter',
                        'remove': 'remove_filter', 'again': 'apply_filter'}[
                            what], ', '.join(
                            str(x) for x in a))


F0, G0, H0 = ('f', 'F', None), ('g', 'G', None), ('h', 'H', None)
FLAT, NEG = {'flat': True}, {'negate': True}


def scenarios(prog, tier='quick'):
    out = []

    def add(names, bank, applied, ops, **kw):
        label = 'filters [%s] of [%s]: %s' % (
            ','.join(applied), ','.join(n + ''.join(sorted(p or ''))
                                        for n, _, p in bank),
            '; '.join(show_op(o) for o in ops))
        if names != 'CP':
            label += ' (%s)' % names
        w = Calls(prog, list(names), bank, applied, ops, **kw)
        if not w.odd:
            out.append((label, lambda: Calls(
                prog, list(names), bank, applied, ops, **kw)))

    G1 = ('g', 'G', FLAT)
    G2 = ('g', 'G', NEG)
    one = [('apply', 'f'), ('apply', 'g'), ('unapply', 'f'),
           ('unapply', 'g'), ('reset',),
           ('apply', 'f', None, True), ('apply', 'g', None, True),
           ('apply', 'nope'), ('apply', 'nope', None, True),
           ('apply', 'nope', {'a': 'b'}, True), ('apply', 'nope', {'a': 'b'}),
           ('apply', 'f', FLAT), ('apply', 'g', FLAT, True),
           ('apply', 'f', NEG), ('apply', 'g', {'a': 'b'}),
           ('apply', 'f', NEG, False, False),
           ('apply', 'g', FLAT, False, False),
           ('apply', 'g', None, False, False), ('unapply', 'f', False),
           ('reset', False), ('apply', 'g', None, True, False),
           ('add', 'f', 'H'), ('add', 'k', 'H', FLAT), ('add', '!k', 'H'),
           ('remove', 'f'), ('remove', 'g'), ('remove', 'nope')]
    fix = {('in', C): True, ('in', P): True, ('e', P, C): True}
    starts = [([F0, G0], []), ([F0, G0], ['f']), ([F0, G0], ['f', 'g']),
              ([F0, G1], ['f', 'g']), ([F0, G1], ['f']), ([F0, G2], ['g'])]
    for i, (bank, applied) in enumerate(starts):
        for op in one:
            if op[0] in ('add', 'remove'):
                continue
            add('CPX' if tier == 'thorough' else 'CP', bank, applied, [op],
                **({} if tier == 'thorough' else {'fixed': {
                    ('in', C): True}}))
            for op2 in one if i in (1, 2, 3) or tier == 'thorough' else ():
                if op2[0] in ('add', 'remove') or op[0] == 'add' and \
                        op[1] != op2[1]:
                    continue
                add('CP', bank, applied, [op, op2], fixed=fix)
        for op in one:
            if op[0] in ('add', 'remove'):
                for last in (('apply', op[1]), ('apply', op[1], None, True),
                             ('unapply', 'g'), ('apply', 'k')):
                    add('CP', bank, applied, [op, last], fixed=fix)
    three = [
        [('apply', 'f', NEG), ('again', 'f', {'negate': False})],
        [('apply', 'f', {'a': 'b'}), ('again', 'f', NEG)],
        [('apply', 'g', NEG, True), ('again', 'g', FLAT)],
        [('apply', 'g', FLAT), ('apply', 'f', {'flat': False}),
         ('again', 'g', {'flat': False})],
        [('apply', 'f', NEG), ('apply', 'f', {'negate': False})],
        [('apply', 'g', {'a': 'b'}), ('apply', 'g', {'a': 'c'})],
        [('apply', 'g', {'negate': False}, True)],
        [('remove', 'f'), ('add', 'f', 'H'), ('apply', 'f')],
        [('remove', 'f'), ('add', 'f', 'H', FLAT), ('reset',),
         ('apply', 'f')],
        [('apply', 'g', None, False, False), ('apply', 'k')],
        [('add', 'k', 'H', FLAT), ('apply', 'k', None, True),
         ('unapply', 'k'), ('apply', 'f')],
        [('add', '!k', 'H', NEG), ('apply', 'k')],
        [('unapply', 'f', False), ('apply', 'g', None, False, False),
         ('apply', 'f')],
        [('apply', 'f', NEG), ('apply', 'f', {'a': 'b'}), ('apply', 'g')],
        [('remove', 'f'), ('apply', 'g'), ('add', 'f', 'F'), ('reset',),
         ('apply', 'f')],
    ]
    for bank, applied in starts:
        for ops in three:
            add('CP', bank, applied, ops, fixed=fix)
    return out


def filter_job(prog, res, index, tier):
    label, make = scenarios(prog, tier)[index]
    run_operation(prog, res, make)


def filter_jobs(prog, tier):
    return [(label, filter_job, (i, tier)) for i, (label, _) in enumerate(
        scenarios(prog, tier))]
