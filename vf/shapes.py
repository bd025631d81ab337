"""A family of type definitions for #[derive(EnumLike)]: their Rust text, the
mixed-radix numbering expected of them, and an enumeration of their values."""
import itertools, random, re

NAMES = ['a', 'x', 'value', 'x0', 'b', 'n1', 'offset', 'z', 'y', 'f', 'd', 'k', '_u', 'x10', 'x1']
LET = 'ABCDEFGHIJKLMNOP'


class Var:
    def __init__(self, name, kind, fields=(), disc=None):
        self.name, self.kind, self.fields, self.disc = name, kind, list(fields), disc

    def decl(self):
        t = ''
        if self.kind == 'tuple':
            t = '(' + ', '.join(ty for _, ty in self.fields) + ')'
        elif self.kind == 'named':
            t = ' { ' + ', '.join('%s: %s' % f for f in self.fields) + ' }'
        return t

    def pat(self, path, names):
        if self.kind == 'unit':
            return path
        if self.kind == 'tuple':
            return '%s(%s)' % (path, ', '.join(names))
        return '%s { %s }' % (path, ', '.join('%s: %s' % (f[0], n) for f, n in zip(self.fields, names)))

    mk = pat


class Shape:
    def __init__(self, name, params, variants, enum, bounds=None, where='', verify=True, attr=''):
        self.attr = attr
        self.name, self.params, self.variants, self.enum, self.where, self.verify = name, params, variants, enum, where, verify
        self.bounds = bounds or {}

    def generics(self):
        return '<%s>' % ', '.join(p + (': ' + self.bounds[p] if p in self.bounds else '') for p in self.params) if self.params else ''

    def ty(self, args=None):
        return self.name + ('<%s>' % ', '.join(args or self.params) if self.params else '')

    def decl(self):
        w = ' where ' + self.where if self.where else ''
        if not self.enum:
            v = self.variants[0]
            d = {'unit': ';', 'empty_tuple': '();', 'empty_named': ' {}'}.get(v.kind)
            if d:
                return 'pub struct %s%s' % (self.name, d)
            if v.kind == 'tuple':
                return 'pub struct %s%s(%s)%s;' % (self.name, self.generics(), ', '.join('pub ' + ty for _, ty in v.fields), w)
            return 'pub struct %s%s%s { %s }' % (self.name, self.generics(), w, ', '.join('pub %s: %s' % f for f in v.fields))
        return 'pub enum %s%s%s { %s }' % (self.name, self.generics(), w, ', '.join(
            v.name + v.decl() + (' = %d' % v.disc if v.disc is not None else '') for v in self.variants))

    def path(self, v):
        return '%s::%s' % (self.name, v.name) if self.enum else self.name

    def order(self):
        """unit variants first, then the others, in order of definition"""
        return [v for v in self.variants if not v.fields] + [v for v in self.variants if v.fields]

    def describe(self):
        return self.decl()

    # ---- enumeration for the replay -----------------------------------------
    def v_impl(self):
        b = ', '.join('%s: V%s' % (p, ' + ' + self.bounds[p] if p in self.bounds else '') for p in self.params)
        prod = lambda v: ' * '.join(['1u128'] + ['<%s as V>::cnt()' % ty for _, ty in v.fields])
        vs = [(v, self.mkpat(v)) for v in self.variants]
        ith = ''
        for v, mk in vs:
            f = ''.join('let v%d = { let c = <%s as V>::cnt(); let r = <%s as V>::ith(k %% c); k /= c; r }; ' % (i, ty, ty) for i, (_, ty) in enumerate(v.fields))
            ith += 'if k < %s { %s return %s } k -= %s; ' % (prod(v), f, mk(['v%d' % i for i in range(len(v.fields))]), prod(v))
        same = ''.join('(%s, %s) => true%s, ' % (mk(['a%d' % i for i in range(len(v.fields))]), mk(['b%d' % i for i in range(len(v.fields))]), ''.join(' && a%d.same(b%d)' % (i, i) for i in range(len(v.fields)))) for v, mk in vs)
        show = ''.join('%s => { let mut s = String::from("%s"); %s s } ' % (mk(['a%d' % i for i in range(len(v.fields))]), v.name + ('(' if v.fields else ''),
                       ''.join('s += &a%d.show(); s += "%s";' % (i, ')' if i + 1 == len(v.fields) else ', ') for i in range(len(v.fields)))) for v, mk in vs)
        if not vs:
            return 'impl V for %s { fn cnt() -> u128 { 0 } fn ith(_: u128) -> Self { unreachable!() } fn same(&self, _: &Self) -> bool { match *self {} } fn show(&self) -> String { match *self {} } }' % self.name
        return ('impl%s V for %s%s { fn cnt() -> u128 { %s }\n fn ith(k: u128) -> Self { let mut k = k; %s unreachable!() }\n fn same(&self, o: &Self) -> bool { match (self, o) { %s%s } }\n fn show(&self) -> String { match self { %s} } }' % (
            '<%s>' % b if b else '', self.ty(), ' where ' + self.where if self.where else '', ' + '.join(prod(v) for v in self.variants), ith, same, '_ => false' if len(vs) > 1 else '', show))

    def mkpat(self, v):
        p = self.path(v)
        if v.kind == 'empty_tuple' or v.kind == 'empty_named':
            return lambda n: p + ' {}'
        return lambda n: v.pat(p, n)


def fields(kind, types):
    if kind == 'tuple':
        return [(str(i), t) for i, t in enumerate(types)]
    return [(NAMES[i], t) for i, t in enumerate(types)]


def product(name, kinds, letters=None, **kw):
    """enum with the given variant kinds: 'U', 'T2', 'N3', .."""
    vs, k, used = [], 0, []
    for i, kd in enumerate(kinds):
        if kd == 'U':
            vs.append(Var('V%d' % i, 'unit'))
            continue
        n = int(kd[1:])
        tys = []
        for _ in range(n):
            t = (letters or LET)[k % len(letters or LET)]
            k += 1
            tys.append(t)
            if t not in used:
                used.append(t)
        vs.append(Var('V%d' % i, 'tuple' if kd[0] == 'T' else 'named', fields('tuple' if kd[0] == 'T' else 'named', tys)))
    return Shape(name, sorted(used), vs, True, **kw)


def struct(name, kind, types, params, **kw):
    return Shape(name, params, [Var(name, kind, fields(kind, types))], False, **kw)


def family(seed, deep):
    out = []
    add = out.append
    add(Shape('Unit', [], [Var('Unit', 'unit')], False))
    add(Shape('EmptyT', [], [Var('EmptyT', 'empty_tuple')], False))
    add(Shape('EmptyN', [], [Var('EmptyN', 'empty_named')], False))
    for n in range(1, 8):
        ts = list(LET[:n])
        add(struct('St%d' % n, 'tuple', ts, ts))
        add(struct('Sn%d' % n, 'named', ts, ts))
    add(struct('St12', 'tuple', list(LET[:12]), list(LET[:12]), verify=False))
    add(struct('Sn15', 'named', list(LET[:15]), list(LET[:15]), verify=False))
    add(product('W12', ['T12', 'U', 'N12'], letters=LET[:12], verify=False))
    add(product('Many', ['T1', 'U', 'N1'] * 9 + ['T2', 'U', 'U'], letters='ABC', verify=False))
    add(struct('Tys', 'tuple', ['(A, bool)', '[B; 2]', '()', 'Result<A, B>', '[(bool, A); 1]'], ['A', 'B'], bounds={'A': 'Copy', 'B': 'Copy'}, verify=False))
    add(Shape('Neg', [], [Var('V%d' % i, 'unit', (), d) for i, d in enumerate((5, -3, None, 0, 200))], True))
    add(Shape('ReprD', ['A'], [Var('P', 'tuple', [('0', 'A')], 7), Var('Q', 'unit', (), 3), Var('R', 'named', [('x', 'bool'), ('y', 'A')], None), Var('S', 'unit', (), 0), Var('T', 'unit', (), None)], True, bounds={'A': 'Copy'}, attr='#[repr(u8)] '))
    add(Shape('ReprC', [], [Var('V%d' % i, 'unit', (), d) for i, d in enumerate((9, None, 1, 2, 0))], True, attr='#[repr(u8)] '))
    add(struct('Rep2', 'tuple', ['A', 'A'], ['A']))
    add(struct('Rep3', 'named', ['A', 'B', 'A'], ['A', 'B']))
    add(struct('Conc', 'named', ['bool', 'Option<A>', 'Option<bool>'], ['A'], bounds={'A': 'Copy'}))
    add(struct('Nest', 'tuple', ['St2<A, B>', 'Option<St2<B, A>>'], ['A', 'B'], where='A: Copy'))
    add(struct('Bnd', 'named', ['B', 'A'], ['A', 'B'], bounds={'A': 'Copy', 'B': 'Copy + Clone'}, where='B: Clone'))
    add(Shape('Void', [], [], True, verify=False))
    for n in (1, 2, 3, 7, 20, 40, 300):
        add(product('C%d' % n, ['U'] * n, verify=n < 100))
    for nm, ds in (('D3', (3, 2, 1)), ('D4', (100, None, 7, 5)), ('D2', (None, 0)[::-1])):
        add(Shape(nm, [], [Var('V%d' % i, 'unit', (), d) for i, d in enumerate(ds)], True))
    K = ['U', 'T1', 'T2', 'N1', 'N2', 'T3', 'N3']
    rnd = random.Random(seed)
    seqs = [s for n in (1, 2) for s in itertools.product(K, repeat=n) if set(s) != {'U'}]
    three = [s for s in itertools.product(K, repeat=3) if set(s) != {'U'}]
    seqs += three if deep else rnd.sample(three, 24)
    fixed = [('T1', 'U', 'N2', 'U', 'T3'), ('U', 'N2', 'T2', 'U', 'T1', 'N3'), ('T4', 'U'), ('N5',), ('U', 'U', 'U', 'T1'), ('T2', 'T2', 'T2', 'T2'), ('T1',) * 5, ('N1', 'U') * 3]
    seqs += fixed
    for _ in range(60 if deep else 8):
        seqs.append(tuple(rnd.choice(K + ['U', 'T4', 'N4']) for _ in range(rnd.randint(3, 6))))
    seen = set()
    for s in seqs:
        if set(s) == {'U'} or s in seen or sum(int(k[1:] or 0) for k in s if k != 'U') > 12:
            continue
        seen.add(s)
        add(product('E' + '_'.join(s), s))
    add(product('Same', ('T2', 'U', 'N3', 'T1'), letters='A'))
    add(Shape('MixC', ['A'], [Var('P', 'tuple', [('0', 'bool'), ('1', 'A')]), Var('Q', 'unit'), Var('R', 'named', [('offset', 'Option<A>'), ('range_high', 'bool')])], True, bounds={'A': 'Copy'}))
    add(Shape('MixN', ['A', 'B'], [Var('P', 'tuple', [('0', 'Same<A>'), ('1', 'St2<A, B>')]), Var('R', 'named', [('x', 'B'), ('xx', 'A')]), Var('Q', 'unit')], True, where='A: Copy, B: Copy'))
    return out


def count(s, args, sizes):
    """number of values of s<args>, None if a partial product does not fit"""
    tot = 0
    for v in s.variants:
        p = 1
        for _, t in v.fields:
            n = size_of(t, dict(zip(s.params, args)), sizes)
            if n is None:
                return None
            p *= n
            if p >= 1 << 64:
                return None
        tot += p
    return tot if tot < 1 << 64 else None


def split(t):
    out, d, cur = [], 0, ''
    for ch in t:
        d += ch in '<(['
        d -= ch in '>)]'
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    return out + [cur] if cur.strip() else out


def size_of(t, env, sizes):
    t = t.strip()
    t = env.get(t, t)
    if t == 'bool':
        return 2
    m = re.match(r'^N<(\d+)>$', t)
    if m:
        return int(m.group(1))
    m = re.match(r'^Option<(.*)>$', t)
    if m:
        n = size_of(m.group(1), env, sizes)
        return None if n is None else n + 1
    m = re.match(r'^\[(.*); (\d+)\]$', t)
    if m:
        n = size_of(m.group(1), env, sizes)
        return None if n is None else n ** int(m.group(2))
    if t[0] == '(':
        p = 1
        for x in split(t[1:-1]):
            n = size_of(x, env, sizes)
            if n is None:
                return None
            p *= n
        return p
    m = re.match(r'^Result<(.*)>$', t)
    if m:
        a, b = [size_of(x, env, sizes) for x in split(m.group(1))]
        return None if a is None or b is None else a + b
    m = re.match(r'^(\w+)<(.*)>$', t)
    s = sizes[m.group(1)]
    args = split(m.group(2))
    return count(s, [env.get(a.strip(), a.strip()) for a in args], sizes)


POOL = ['bool', 'N<3>', 'N<5>', 'N<2>', 'N<1>', 'Option<bool>', 'N<4>', 'N<7>']
BIG = ['N<1000003>', 'N<65537>', 'N<4294967311>', 'N<9223372036854775808>', 'N<6148914691236517205>', 'N<255>']


def instances(fam, seed, per):
    """[(shape, type text, size)]: the types replayed"""
    by = {s.name: s for s in fam}
    rnd = random.Random(seed + 7)
    out = []
    for s in fam:
        if not s.params:
            out.append((s, s.ty(), count(s, [], by)))
            continue
        seen = set()
        k = len(s.params)
        tries = [[POOL[(i + j) % len(POOL)] for i in range(k)] for j in range(2)]
        for _ in range(60):
            how = rnd.randrange(4)
            if how == 0:        # one component without values
                a = [rnd.choice(POOL) for _ in range(k)]
                a[rnd.randrange(k)] = 'N<0>'
            elif how == 1:      # one or two large ones, the others small
                a = [rnd.choice(['N<1>', 'N<2>', 'N<1>', 'bool', 'N<3>']) for _ in range(k)]
                for _ in range(rnd.randint(1, 2)):
                    a[rnd.randrange(k)] = rnd.choice(BIG)
            else:
                a = [rnd.choice(POOL) for _ in range(k)]
            tries.append(a)
        n = 0
        kinds = {'zero': 0, 'big': 0, 'plain': 0}
        for a in tries:
            c = count(s, a, by)
            if c is None or tuple(a) in seen:
                continue
            kd = 'zero' if 'N<0>' in a else 'big' if c > 4096 else 'plain'
            if kinds[kd] >= (per if kd == 'plain' else 1):
                continue
            kinds[kd] += 1
            seen.add(tuple(a))
            out.append((s, s.ty(a), c))
    return out


def witness_main(fam, seed, per):
    t = ['#[macro_use] extern crate enum_like_derive;', 'mod v;', 'use v::*;', 'use enum_like::EnumLike;', 'use std::panic::{catch_unwind, AssertUnwindSafe};', 'include!("codes.rs");']
    for s in fam:
        t.append('#[allow(dead_code)] #[derive(Copy, Clone, EnumLike)] %s%s' % (s.attr, s.decl()))
        t.append('#[allow(unreachable_code, unused_mut, unused_variables, unused_assignments)] ' + s.v_impl())
    t.append('fn one<T: V>(c: &mut Ck, name: &str, n: u128) { if c.bad() { return } println!("H {}", name); if T::cnt() != n { println!("BADSIZE {}", name); std::process::exit(9) } if c.samples < 8 { c.samples += 1; println!("SAMPLE {} with {} values", name, n); } codes::<T>(c, name) }')
    ins = instances(fam, seed, per)
    fns = []
    for i in range(0, len(ins), 40):
        fns.append('f%d' % i)
        t.append('fn f%d(c: &mut Ck) {\n%s}' % (i, ''.join('    one::<%s>(c, "%s as in `%s`", %d);\n' % (ty, ty, s.decl()[:160].replace('"', ''), n) for s, ty, n in ins[i:i + 40])))
    t.append('fn main() {\n    std::panic::set_hook(Box::new(|_| {}));\n    let a: Vec<String> = std::env::args().collect();\n    let mut c = Ck { prop: String::new(), q: a[2].parse().unwrap(), g: Rng::new(a[1].parse().unwrap()), fail: None, cases: 0, nontriv: 0, samples: 0 };\n    '
             + ' '.join('%s(&mut c);' % f for f in fns) + '\n    if let Some(f) = &c.fail { println!("FAIL {}", f); }\n    println!("CASES {}\\nNONTRIV {}", c.cases, c.nontriv);\n    std::process::exit(if c.fail.is_some() { 3 } else { 0 });\n}')
    return '\n'.join(t) + '\n', len(ins)
