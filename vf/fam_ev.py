"""C01..C09: the six EnumVec modules."""
import os, re, concurrent.futures as cf
import families, gen_ev, gen_ty, props

SAFETY = re.compile(r'get_unchecked|from_discr|\bwf\(\)|shape\(\)|valid\(|NUM_VARIANTS|ok_raw')
OOR = re.compile(r'^(i|index|ia|ib|at) (<|<=) |index <|at <=|ia <|ib <|Some\(.*None')


CONSTS = ('BITS_PER_ELEM', 'ERROR_TOO_MANY_VARIANTS', 'ERROR_ZERO_SIZED', 'ELEMS_PER_BLOCK', 'ELEMENT_MASK')
MODULES = ['vec_u128', 'vec_u64', 'vec_u32', 'smallvec_u32', 'vec_u16', 'vec_u8']


class Ev:
    timeout = 560

    def has(self, prop):
        return prop in props.EV and prop != 'C15'

    def units(self, ctx):
        p = props.EV[ctx.prop]

        def gen(m):
            def g(var=None):
                out, info = gen_ev.generate(ctx.repo, m, ctx.prop, p['mode'], p['roots'], var=var)
                info['vacuity'] = lambda: gen_ev.generate(ctx.repo, m, ctx.prop, p['mode'], p['roots'], vacuity=True, var=var)
                return out, info
            return g
        def ty(m):
            return lambda: (lambda oi: (oi[0], dict(oi[1], vacuity=lambda: gen_ty.generate(ctx.repo, m, True))))(gen_ty.generate(ctx.repo, m))
        # the slowest first
        more = [families.Unit('C07_types_' + m, ty(m), ['types_' + m]) for m in MODULES] if ctx.prop == 'C07' else []
        return more + [families.Unit('%s_%s' % (ctx.prop, m), gen(m), [m], gen_ev.Variant) for m in MODULES]

    def counts(self, ctx, f):
        if ctx.prop == 'C07':
            if 'vp_nv' in f['clause']:
                return False        # another constant may refuse the type: the replay decides
            if f['fn'] in CONSTS:
                return False        # refuses a type that fits, or another width: C01
            return bool(SAFETY.search(f['clause'])) and not f['kind'].startswith('assertion')
        if ctx.prop == 'C08':
            return bool(re.search(r'storage@\.len\(\)|capacity_spec|tb::|tepb', f['clause'])) or f['fn'] in ('BITS_PER_ELEM', 'ELEMS_PER_BLOCK')
        if ctx.prop == 'C09':
            return bool(OOR.search(f['clause']))
        if f['fn'] == 'Hash::hash':
            return False        # the contract fixes the words fed; another injective choice is as good
        return True

    def always(self, ctx):
        return []

    def witness(self, ctx, mods):
        w = families.Wit()
        p = ctx.prop
        types = [m[6:] for m in mods if m.startswith('types_')]
        mods = [m for m in mods if not m.startswith('types_')]
        if types or p == 'C07' and ctx.tier == 'thorough':
            w.rule = 'a program using a type with 0, 1 or too many values must be refused'
            reject(ctx, w, types or MODULES)
            if w.found or not mods:
                return w
        w.rule = ('histories of 1 to 20 random operations on the real EnumVec next to Vec, per storage module and per number of variants '
                  '(element widths from 1 bit to the whole block), lengths around block boundaries; non-trivial: an operation of %s ran' % p)
        d = families.crate(ctx, 'ev')
        import importlib.util
        sp = importlib.util.spec_from_file_location('mods', os.path.join(d, 'mods.py'))
        mm = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(mm)
        open(os.path.join(d, 'src/mods.rs'), 'w').write(mm.mods(mods))
        runs = [('debug', []), ('release', ['--release'])]

        def go(r):
            kind, fl = r
            tgt = os.path.join(ctx.build, 'target_' + kind)
            rc, o = families.sh(['cargo', 'build', '--offline', '-q'] + fl, d, 420, {'CARGO_TARGET_DIR': tgt}, 0)
            if rc != 0:
                return kind, None, o
            exe = os.path.join(tgt, kind, 'ev_witness')
            q = 400 if ctx.tier == 'thorough' else 60
            n = 0
            rc, o = families.sh([exe, p, str(ctx.seed), str(q)], d, 400 if ctx.tier == 'thorough' else 150, {'RUST_BACKTRACE': '0'})
            return kind, (exe, rc), o
        with cf.ThreadPoolExecutor(2) as ex:
            for kind, r, o in ex.map(go, runs):
                if r is None:
                    w.error = (w.error or '') + 'the replay crate does not build (%s): %s\n' % (kind, o[-1500:])
                    continue
                exe, rc = r
                marks = re.findall(r'^H (\S+) (\d+) (\d+) (\d+)$', o, re.M)
                m = re.search(r'^CASES (\d+)', o, re.M)
                w.cases += int(m.group(1)) if m else len(marks)
                m = re.search(r'^NONTRIV (\d+)', o, re.M)
                w.nontriv += int(m.group(1)) if m else len(marks)
                w.samples += re.findall(r'^SAMPLE (.*)$', o, re.M)[:4]
                if w.found:
                    continue
                m = re.search(r'^FAIL (.*)\Z', o, re.M | re.S)
                if m:
                    w.found = True
                    w.text = '(%s build) ' % kind + '\n'.join(l for l in m.group(1).split('\n') if not re.match(r'^(CASES|NONTRIV|H |SAMPLE)', l))
                    h = re.match(r'(\S+) K=(\d+) seed=(\d+) steps=(\d+)', m.group(1))
                    w.cmd = 'ev_witness (%s build of witness/ev) %s %d 1 %s %s %s %s' % (kind, p, ctx.seed, h.group(1), h.group(2), h.group(3), h.group(4))
                elif rc not in (0, 3) and marks:
                    # crashed or hung: run the last case again, printing each operation
                    mod, k, s, n = marks[-1]
                    rc2, o2 = families.sh([exe, p, str(ctx.seed), '1', mod, k, s, n], d, 60, {'RUST_BACKTRACE': '0'})
                    msg = '\n'.join(l for l in o2.split('\n') if not l.startswith('H '))[-1500:]
                    if rc is None and rc2 is not None:
                        continue            # slow machine, not a hang
                    if 'memory allocation of' in o2 and p not in ('C08',):
                        continue
                    last = re.findall(r'^op (.*)$', o2, re.M)
                    if p == 'C07' and rc2 is None:
                        continue
                    if p not in ('C07',) and not (last and own_last(p, last[-1])):
                        continue
                    w.found = True
                    w.text = '(%s build) %s K=%s seed=%s steps=%s\n%s\n=> %s' % (kind, mod, k, s, n, msg, 'does not terminate' if rc2 is None else 'the process died (exit %s)' % rc2)
                    w.cmd = 'ev_witness (%s build of witness/ev) %s %d 1 %s %s %s %s' % (kind, p, ctx.seed, mod, k, s, n)
        if w.error:
            print(w.error)
        if not w.found and p in ('C01', 'C08') and self.widths(ctx):
            bounds(ctx, w, d, mods)
        return w

    def widths(self, ctx):
        return any(f['fn'] in CONSTS for u in getattr(ctx, 'units', []) for f in u.failed)

    def trusted(self, ctx, units):
        return sorted({'external_body ' + x for u in units for x in u.external})

    def assumptions(self, ctx):
        a = ['the element type obeys the EnumLike contract: discriminants below NUM_VARIANTS, from_discr inverts to_discr, 2 <= NUM_VARIANTS <= 2^block width (for any other type the constants do not evaluate, so the program does not compile: proved by C07)',
             'contracts assumed for Vec/SmallVec storage, slice, Range, repeat/take, cloned, Hasher and Option (listed in trusted_base); SmallVec is treated as Vec',
             'usize has 64 bits; fewer than 2^60 bits of storage are ever requested (beyond that allocation fails)',
             'iterators and closures passed in by the caller are finite and callable' + ('' if ctx.prop == 'C07' else ', size_hint bounds are honest'),
             'consistent renaming of std traits and methods, `for` written as loop/match, unsafe blocks as plain blocks (the extraction, see DESIGN.md)']
        if ctx.prop == 'C07':
            a += ['from_discr and to_discr of the element type are inverse both ways (every discriminant below NUM_VARIANTS is that of a value)',
                  'code of the caller that may panic is called where the proof asserts the invariant: calls of closure parameters, next() of caller iterators']
        return a


def bounds(ctx, w, d, mods):
    """every width: types of 2^k and 2^k + 1 values"""
    o = """use enum_vec::EnumLike;
#[derive(Copy, Clone, PartialEq, Eq)] pub struct N<const K: usize>(pub usize);
unsafe impl<const K: usize> EnumLike for N<K> { const NUM_VARIANTS: usize = K; fn to_discr(self) -> usize { self.0 } fn from_discr(x: usize) -> Self { N(x) } }
macro_rules! module { ($m:ident, $w:expr) => { mod $m { use super::*; use enum_vec::$m::EnumVec;
pub fn c<const K: usize>() {
    let mut v: EnumVec<N<K>> = EnumVec::new();
    let n = 2 * $w + 3;
    let e = |i: usize| match i % 5 { 0 => K - 1, 1 => 0, 2 => K / 2, 3 => K - 1, _ => 1 };
    for i in 0..n { v.push(N(e(i))) }
    for i in 0..n { if v.get(i).map(|x| x.0) != Some(e(i)) { println!("FAIL %s of a type with {} values: push of {:?}.., get({}) is {:?}", K, (0..i + 1).map(e).collect::<Vec<_>>(), i, v.get(i).map(|x| x.0)); std::process::exit(3) } }
    let mut b = 0; while K - 1 >> b > 0 { b += 1; if b == 64 { break } }
    let per = $w / b;
    if @C08@ && v.storage().len() > (n + per - 1) / per + 1 { println!("FAIL %s of a type with {} values: {} elements take {} blocks", K, n, v.storage().len()); std::process::exit(3) }
} } } }
""".replace('@C08@', str(ctx.prop == 'C08').lower())
    o = o.replace('FAIL %s of', 'FAIL {} of').replace('values: push of {:?}.., get({}) is {:?}", K', 'values: push of {:?}.., get({}) is {:?}", stringify!($m), K').replace('take {} blocks", K', 'take {} blocks", stringify!($m), K')
    main = ''
    for m in mods:
        W = int(m.split('_u')[1])
        o += 'module! { %s, %d }\n' % (m, W)
        for k in range(1, min(W, 64) + 1):
            if k < 64:
                main += '%s::c::<%d>(); ' % (m, 1 << k)
            if k < min(W, 64):
                main += '%s::c::<%d>(); ' % (m, (1 << k) + 1)
        main += '\n'
    os.makedirs(os.path.join(d, 'src/bin'), exist_ok=True)
    open(os.path.join(d, 'src/bin/bounds.rs'), 'w').write(o + 'fn main() { %s }\n' % main)
    tgt = os.path.join(ctx.build, 'target_debug')
    rc, out = families.sh(['cargo', 'build', '--offline', '-q', '--bin', 'bounds'], d, 300, {'CARGO_TARGET_DIR': tgt}, 0)
    if rc != 0:
        m = re.search(r'E0080\]:[^\n]*(?:\n(?![a-z]).*)*EnumVec::<[^`]*', out or '')
        if m:
            w.found, w.text, w.cmd = True, 'a type that fits is refused at compile time: ' + m.group(0), 'cargo build of witness/ev with bin bounds'
        else:
            w.error = (w.error or '') + 'bounds: ' + (out or '')[-800:]
        return
    rc, out = families.sh([os.path.join(tgt, 'debug/bounds')], d, 60)
    m = re.search(r'^FAIL (.*)$', out or '', re.M)
    if m or rc not in (0, None):
        w.found, w.text, w.cmd = True, m.group(1) if m else 'the process died: ' + (out or '')[-600:], 'bounds (debug build of witness/ev)'


def reject(ctx, w, mods):
    """a type that does not fit the block must not compile"""
    d = os.path.join(ctx.build, 'crate_types')
    os.makedirs(os.path.join(d, 'src'), exist_ok=True)
    open(os.path.join(d, 'Cargo.toml'), 'w').write('[package]\nname = "types"\nversion = "0.1.0"\nedition = "2018"\n[workspace]\n[dependencies]\nenum_vec = { path = "%s/enum_vec", features = ["smallvec"] }\n' % ctx.repo)
    cases = []
    for m in mods:
        W = int(m.split('_u')[1])
        cases += [(m, k) for k in [0, 1] + ([(1 << W) + 1, 1 << (W + 1), (1 << 64) - 1] if W < 64 else [])]
    open(os.path.join(d, 'src/main.rs'), 'w').write("""#![allow(dead_code, unused, unexpected_cfgs)]
use enum_vec::EnumLike;
#[derive(Copy, Clone, Debug)] pub struct N<const K: usize>(pub usize);
unsafe impl<const K: usize> EnumLike for N<K> { const NUM_VARIANTS: usize = K; fn to_discr(self) -> usize { self.0 } fn from_discr(x: usize) -> Self { N(x) } }
%s
fn main() { let k: usize = K; let e = if k == 0 { 0 } else { k - 1 }; let mut v: E = Default::default(); v.push(N(e)); println!("ACCEPTED: a type with {} values; after push({}) get(0) is {:?}", k, e, v.get(0)); }
""" % ''.join('#[cfg(t%d)] type E = enum_vec::%s::EnumVec<N<%d>>; #[cfg(t%d)] const K: usize = %d;\n' % (i, m, k, i, k) for i, (m, k) in enumerate(cases)))
    tgt = os.path.join(ctx.build, 'target_types')
    for i, (m, k) in enumerate(cases):
        rc, o = families.sh(['cargo', 'rustc', '--offline', '-q', '--', '--cfg', 't%d' % i], d, 200, {'CARGO_TARGET_DIR': tgt}, 0)
        if rc == 0:
            rc, o = families.sh([os.path.join(tgt, 'debug/types')], d, 20, {'RUST_BACKTRACE': '0'})
            if rc == 101 and 'ACCEPTED' not in o:
                w.cases += 1          # refused with a panic
                continue
            w.found, w.text, w.cmd = True, 'enum_vec::%s with a type of %d values compiles: %s' % (m, k, o.strip()[-300:]), 'cargo build of a program using it'
            return
        if 'E0080' not in (o or ''):
            w.error = (w.error or '') + 'unclear why %s with %d values is refused: %s\n' % (m, k, (o or '')[-600:])
            return
        w.cases += 1


class Dbg(Ev):
    """C15: Debug of the vectors and of the set"""
    def has(self, prop):
        return prop == 'C15'

    def units(self, ctx):
        import gen_es
        f = lambda v: gen_es.gen(ctx.repo, v, debug=True)
        return Ev.units(self, ctx) + [families.Unit('C15_enum_set', lambda: (lambda oi: (oi[0], dict(oi[1], vacuity=lambda: f(True))))(f(False)), ['enum_set'])]

    def witness(self, ctx, mods):
        import fam_local
        w = families.Wit()
        vm = [m for m in mods if m != 'enum_set']
        if vm:
            w = Ev.witness(self, ctx, vm)
        if 'enum_set' in mods and not w.found:
            fam_local.run_exes(ctx, w, families.crate(ctx, 'es'), 'es_witness', [str(ctx.seed), '20000' if ctx.tier == 'thorough' else '1500', 'C15'])
        w.rule = 'histories on the real vectors (next to Vec) and sets of 19 element types, formatted with {:?} and {:#?} after each step; non-trivial: something was formatted'
        return w

    def trusted(self, ctx, units):
        return Ev.trusted(self, ctx, units) + ['contracts of the core::fmt list and set builders (vf/fmt_prelude.rs)']

    def assumptions(self, ctx):
        return Ev.assumptions(self, ctx)[:4] + ['core::fmt: a list or set builder writes the entries it is given, in the order given, between delimiters, and finish returns the outcome (vf/fmt_prelude.rs)',
                'BitSet and its iterators have the contracts in vf/es_prelude.rs', 'the textual form of one element is the business of its own Debug impl']


def own_last(p, s):
    t = {'C01': ['push', 'pop(', '.get(', '.set(', '.swap', 'truncate(', 'clear(', '.len()', 'EnumVec::new', 'with_capacity'], 'C02': ['.insert(', '.remove('],
         'C03': ['append(', 'split_off(', '.extend(', 'resize(', 'from_elem', 'from_slice', 'retain(', 'collect', 'convert', 'macro'], 'C04': ['v.any(', 'v.all('],
         'C05': ['iter()', 'to_vec', 'for_each'], 'C06': ['eq on', 'hash on', 'clone on'], 'C08': ['reserve(', 'shrink', 'with_capacity', 'capacity', 'resize', 'from_elem', 'append', 'insert', 'extend', 'split_off'], 'C09': ['v.'], 'C15': ['debug(']}
    return any(x in s for x in t.get(p, []))
