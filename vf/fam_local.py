"""C10..C12: the enum_like crate."""
import os, re
import concurrent.futures as cf
import families, gen_el

GROUPS = [('tuple', 3, 20), ('tuple', 21, 32), ('array', 0, 16), ('array', 17, 24), ('array', 25, 28), ('array', 29, 32)]


def pick(g, lo, hi):
    return lambda a, n: a == g and lo <= n <= hi or g == 'base' and (a == 'base' or a == 'tuple' and n <= 2)


def run_exes(ctx, w, crate_dir, exe, args, builds=(('debug', []), ('release', ['--release'])), timeout=None, btimeout=420):
    """build and run a witness program in each profile; fills in w"""
    timeout = timeout or (300 if ctx.tier == 'thorough' else 120)
    def go(r):
        kind, fl = r
        tgt = os.path.join(ctx.build, 'target_' + kind)
        rc, o = families.sh(['cargo', 'build', '--offline', '-q'] + fl, crate_dir, btimeout, {'CARGO_TARGET_DIR': tgt}, 0)
        if rc != 0:
            return kind, None, o
        rc, o = families.sh([os.path.join(tgt, kind, exe)] + args, crate_dir, timeout, {'RUST_BACKTRACE': '0'})
        return kind, (rc,), o
    with cf.ThreadPoolExecutor(2) as ex:
        for kind, r, o in ex.map(go, builds):
            if r is None:
                w.error = (w.error or '') + 'the replay crate does not build (%s): %s\n' % (kind, o[-1500:])
                w.build_log = o
                continue
            rc = r[0]
            m = re.search(r'^CASES (\d+)', o, re.M)
            w.cases += int(m.group(1)) if m else 0
            m = re.search(r'^NONTRIV (\d+)', o, re.M)
            w.nontriv += int(m.group(1)) if m else 0
            w.samples += re.findall(r'^SAMPLE (.*)$', o, re.M)[:4]
            m = re.search(r'^FAIL (.*)$', o, re.M)
            if m and not w.found:
                w.found = True
                w.text = '(%s build) %s' % (kind, m.group(1))
                w.cmd = '%s (%s build) %s' % (exe, kind, ' '.join(args))
            elif rc not in (0, 3, 9) and not w.found:
                # died or hung: once more, to be sure
                exe_ = os.path.join(ctx.build, 'target_' + kind, kind, exe)
                rc2, o2 = families.sh([exe_] + args, crate_dir, timeout, {'RUST_BACKTRACE': '0'})
                if (rc2 is None) == (rc is None) and rc2 not in (0, 3, 9):
                    last = re.findall(r'^H (.*)$', o2, re.M)[-1:] or ['?']
                    w.found = True
                    w.text = '(%s build) %s: %s\n%s' % (kind, last[0], 'does not terminate' if rc2 is None else 'the process died (exit %s)' % rc2, o2[-300:])
                    w.cmd = '%s (%s build) %s' % (exe, kind, ' '.join(args))
            elif rc == 9:
                w.error = (w.error or '') + 'the replay misjudges a type: ' + o[-300:]
    if w.error:
        print(w.error)
    return w


M = 2**64 - 1
TOO_BIG = ['(N<4294967296>, N<4294967296>)', '(N<%d>, bool)' % M, 'Option<N<%d>>' % M, 'Option<Option<N<%d>>>' % (M - 1), 'Result<N<%d>, ()>' % M, 'Result<(), N<%d>>' % M,
           'Result<N<9223372036854775808>, N<9223372036854775808>>', '(N<4194304>, N<4194304>, N<1048576>)', '(N<65536>, N<65536>, N<65536>, N<65536>)', '[N<4294967296>; 2]', '[N<65536>; 4]', '[N<5>; 28]', '[N<4>; 32]',
           '(%s)' % ', '.join(['N<256>'] * 8), '(%s)' % ', '.join(['N<4>'] * 32), '[N<2642246>; 3]']
FITS = ['(N<4294967295>, N<4294967297>)', 'Option<N<%d>>' % (M - 1), 'Result<N<%d>, ()>' % (M - 1), '[N<65535>; 4]', '[N<4>; 31]', '(N<0>, N<%d>)' % M, 'Result<N<0>, N<%d>>' % M]
DV_TYPES = """#[derive(Copy, Clone, EnumLike)] pub struct S2<A, B>(pub A, pub B);
#[derive(Copy, Clone, EnumLike)] pub struct S3<A, B, C> { pub a: A, pub b: B, pub c: C }
#[derive(Copy, Clone, EnumLike)] pub struct S1<A>(pub A);
#[derive(Copy, Clone, EnumLike)] pub enum O<A> { None, Some(A) }
#[derive(Copy, Clone, EnumLike)] pub enum R<A, B> { Ok(A), Err { e: B } }
#[derive(Copy, Clone, EnumLike)] pub enum E<A, B, C> { X(A, B), U, Y { c: C, d: A } }
"""
DV_BIG = ['S2<N<4294967296>, N<4294967296>>', 'S2<N<%d>, bool>' % M, 'S3<N<4194304>, N<4194304>, N<1048576>>', 'O<N<%d>>' % M, 'O<O<N<%d>>>' % (M - 1), 'R<N<%d>, ()>' % M, 'R<(), N<%d>>' % M,
          'E<N<4294967296>, N<4294967296>, N<0>>', 'E<N<4294967296>, N<4294967295>, N<1>>', 'E<N<4294967296>, N<0>, N<4294967296>>']
DV_FITS = ['S2<N<4294967295>, N<4294967297>>', 'O<N<%d>>' % (M - 1), 'R<N<0>, N<%d>>' % M, 'E<N<4294967295>, N<4294967295>, N<1>>', 'S1<N<%d>>' % M]


def reject(ctx, w, deps, decls, big, fits):
    """a type with more values than usize counts must not compile; the largest ones that fit must"""
    d = os.path.join(ctx.build, 'crate_reject')
    os.makedirs(os.path.join(d, 'src'))
    open(os.path.join(d, 'Cargo.toml'), 'w').write('[package]\nname = "reject"\nversion = "0.1.0"\nedition = "2018"\n[workspace]\n[dependencies]\n' + ''.join('%s = { path = "%s/%s" }\n' % (x, ctx.repo, x) for x in deps))
    body = ''.join('#[cfg(t%d)] type T = %s;\n' % (i, t) for i, t in enumerate(big + fits))
    open(os.path.join(d, 'src/main.rs'), 'w').write("""#![allow(dead_code, unused_imports, unexpected_cfgs)]
%s
use enum_like::EnumLike;
#[derive(Copy, Clone)] pub struct N<const K: usize>(pub usize);
unsafe impl<const K: usize> EnumLike for N<K> { const NUM_VARIANTS: usize = K; fn to_discr(self) -> usize { self.0 } fn from_discr(x: usize) -> Self { N(x) } }
%s
%s
const K: usize = <T as EnumLike>::NUM_VARIANTS;
fn main() { println!("ACCEPTED with {} variants", K); }
""" % ('#[macro_use] extern crate enum_like_derive;' if len(deps) > 1 else '', decls, body))
    tgt = os.path.join(ctx.build, 'target_reject')
    for i, t in enumerate(big + fits):
        rc, o = families.sh(['cargo', 'rustc', '--offline', '-q', '--', '--cfg', 't%d' % i], d, 200, {'CARGO_TARGET_DIR': tgt}, 0)
        if i < len(big):
            if rc == 0:
                rc, o = families.sh([os.path.join(tgt, 'debug/reject')], d, 20)
                w.found, w.text, w.cmd = True, '%s has more values than usize can count, yet it compiles: %s' % (t, o.strip()), 'cargo build of a program using ' + t
                return
            if 'E0080' not in (o or ''):
                w.error = (w.error or '') + 'unclear why %s is rejected: %s\n' % (t, (o or '')[-600:])
                return
        elif rc != 0 and 'E0080' in (o or ''):
            w.found, w.text, w.cmd = True, '%s fits usize, yet it does not compile:\n%s' % (t, o[-600:]), 'cargo build of a program using ' + t
            return
        w.cases += 1


class Local:
    timeout = 400

    def has(self, prop):
        return prop in ('C10', 'C11', 'C12')

    def units(self, ctx):
        r = ctx.repo
        U = lambda name, f: families.Unit(name, lambda: (lambda oi: (oi[0], dict(oi[1], vacuity=lambda: f(True))))(f(False)), [name])
        if ctx.prop == 'C10':
            us = [U('C10_%s_%d_%d' % g, lambda v, g=g: gen_el.gen_impls(r, pick(*g), v)) for g in GROUPS]
            return us + [U('C10_base', lambda v: gen_el.gen_impls(r, pick('base', 0, 0), v))]
        if ctx.prop == 'C11':
            return [U('C11_values', lambda v: gen_el.gen_values(r, v))]
        return [U('C12_fits', lambda v: gen_el.gen_packed(r, 'A', v)), U('C12_any', lambda v: gen_el.gen_packed(r, 'B', v))]

    def counts(self, ctx, f):
        # C10 fixes one numbering; another one-to-one numbering would be as good, so a failed
        # obligation alone is not a violation: the replay over every arity decides
        return ctx.prop != 'C10'

    def always(self, ctx):
        return []

    def witness(self, ctx, mods):
        w = families.Wit()
        w.rule = {'C10': 'every value (or a sample with the extremes, above 4096) of 228 types: all tuple and array arities, nestings, component sizes up to 2^64-1',
                  'C11': 'random mixes of next, nth, size_hint, len, then count, last or the rest, over the same types',
                  'C12': 'every value (or a sample) of 33 types packed and unpacked, compared in pairs; a type one variant too large must be rejected'}[ctx.prop]
        d = families.crate(ctx, 'el')
        run_exes(ctx, w, d, 'el_witness', [ctx.prop, str(ctx.seed), '2000' if ctx.tier == 'thorough' else '100'])
        if ctx.prop == 'C10' and not w.found and not w.error:
            reject(ctx, w, ['enum_like'], '', TOO_BIG, FITS)
        if ctx.prop == 'C12' and w.error and not w.found:
            # every type of the replay crate fits: it must not be rejected
            m = re.search(r'E0080\]:[^\n]*(?:\n(?![a-z]).*)*Packed(?:U8|U16)::<[^`]*', getattr(w, 'build_log', ''))
            if m:
                w.found, w.text, w.cmd = True, 'a type that fits is rejected at compile time: ' + m.group(0), 'cargo build of the replay crate (witness/el, small.rs)'
        if ctx.prop == 'C12' and not w.found and not w.error:
            for ft in ('reject8', 'reject16'):
                tgt = os.path.join(ctx.build, 'target_' + ft)
                rc, o = families.sh(['cargo', 'build', '--offline', '-q', '--features', ft], d, 200, {'CARGO_TARGET_DIR': tgt}, 0)
                w.cases += 1
                if rc == 0:
                    rc, o = families.sh([os.path.join(tgt, 'debug/el_witness')], d, 20)
                    m = re.search(r'^ACCEPTED (.*)$', o, re.M)
                    if m:
                        w.found, w.text, w.cmd = True, m.group(1), 'el_witness built with --features ' + ft
        return w

    def trusted(self, ctx, units):
        return sorted({'external_body ' + x for u in units for x in u.external if x not in ('laws', 'NUM_VARIANTS', 'to_discr', 'from_discr')}
                      | {'rustc macro expansion (-Zunpretty=expanded) of enum_like/src/lib.rs', 'assume_specification usize::wrapping_rem, usize::wrapping_div'})

    def assumptions(self, ctx):
        a = ['component types obey the EnumLike contract (they may have no value at all); an arithmetic constant whose checked operators overflow does not compile (rustc), so vp_kadd, vp_ksub and vp_kmul return exact results',
             'usize has 64 bits']
        if ctx.prop == 'C10':
            a += ['each unit verifies the impls of its own arities; the others are used through their contracts, which another unit verifies', 'the numbering of today is the specification']
        if ctx.prop == 'C12':
            a += ['an underflowing constant does not compile (rustc)', 'PhantomData values are equal']
        return a


class Es:
    """C14: enum_set"""
    timeout = 300

    def has(self, prop):
        return prop == 'C14'

    def units(self, ctx):
        import gen_es
        f = lambda v: gen_es.gen(ctx.repo, v)
        return [families.Unit('C14_enum_set', lambda: (lambda oi: (oi[0], dict(oi[1], vacuity=lambda: f(True))))(f(False)), ['C14_enum_set'])]

    def counts(self, ctx, f):
        return not f['fn'].startswith('Hash')      # another function of the members is as good

    def always(self, ctx):
        return []

    def witness(self, ctx, mods):
        w = families.Wit()
        w.rule = 'random histories of up to 14 calls on three sets of 19 element types (1 to 300 values, codes in another order than values), compared with BTreeSet after every call'
        run_exes(ctx, w, families.crate(ctx, 'es'), 'es_witness', [str(ctx.seed), '20000' if ctx.tier == 'thorough' else '1500'])
        return w

    def trusted(self, ctx, units):
        return sorted({'external_body ' + x for u in units for x in u.external} | {'contracts of bit_set::BitSet and its iterators (bit-set 0.5.3)'})

    def assumptions(self, ctx):
        return ['element types obey the EnumLike contract', 'BitSet is a finite set of numbers with the contracts in vf/es_prelude.rs (its upper size hint is not relied on), and memory for the codes used is available',
                'a set made by from_bit_set holds codes of values only', 'source iterators are finite and lawful', 'WrapIter is made only by the methods of EnumSet (its constructor and fields are private)', 'usize has 64 bits']


class Dv:
    """C13: the derive macro"""
    timeout = 400
    PARTS = 8

    def has(self, prop):
        return prop == 'C13'

    def family(self, ctx):
        import shapes
        if not hasattr(ctx, 'fam'):
            ctx.fam = shapes.family(ctx.seed, ctx.tier == 'thorough')
        return ctx.fam

    def units(self, ctx):
        import gen_dv
        fam = self.family(ctx)
        U = lambda k: families.Unit('C13_shapes_%d' % k, lambda: (lambda oi: (oi[0], dict(oi[1], vacuity=lambda: gen_dv.gen(ctx, fam, k, self.PARTS, True))))(gen_dv.gen(ctx, fam, k, self.PARTS)), ['C13_shapes_%d' % k])
        return [U(k) for k in range(self.PARTS)]

    def counts(self, ctx, f):
        # the contracts fix the numbering of today; another one-to-one numbering would be as
        # good, so a failed obligation alone is not a violation: the replay decides
        return False

    def always(self, ctx):
        return ['shapes outside the verifier']

    def coverage(self, ctx, units, wit):
        fam = self.family(ctx)
        proved = [u for u in units if u.ok]
        return 'translation_validation', dict(programs=len(fam), disagreements_checked=wit.cases if wit else 0,
                                              explanation='each run puts %d type definitions through the derive of /repo and proves the generated impls against the mixed-radix contract for all component types (%d of %d units accepted); an enum without variants and a C-like enum of 300 variants are only replayed; %d instances of the definitions are replayed on values' % (
                                                  len(fam), len(proved), len(units), getattr(ctx, 'instances', 0)))

    def witness(self, ctx, mods):
        import os, shutil, shapes
        w = families.Wit()
        w.rule = 'every value and code (or a sample with the extremes, above 4096) of instances of every shape of the family: components of 0, 1, 2, .. values up to 2^63, in debug and release builds'
        w.why = ['an enum without variants', 'a C-like enum of 300 variants']
        d = os.path.join(ctx.build, 'crate_dv')
        os.makedirs(os.path.join(d, 'src'))
        for f in ('v.rs', 'codes.rs'):
            shutil.copy(os.path.join(ctx.here, 'witness/el/src', f), os.path.join(d, 'src', f))
        text, n = shapes.witness_main(self.family(ctx), ctx.seed, 4 if ctx.tier == 'thorough' else 2)
        ctx.instances = n
        open(os.path.join(d, 'src/main.rs'), 'w').write(text)
        open(os.path.join(d, 'Cargo.toml'), 'w').write('''[package]
name = "dv_witness"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
enum_like = { path = "%s/enum_like" }
enum_like_derive = { path = "%s/enum_like_derive" }
[profile.dev]
opt-level = 0
debug = false
incremental = false
[profile.release]
debug-assertions = false
overflow-checks = false
opt-level = 0
''' % (ctx.repo, ctx.repo))
        run_exes(ctx, w, d, 'dv_witness', [str(ctx.seed), '400' if ctx.tier == 'thorough' else '60'])
        if w.error and not w.found:
            # derived code that does not compile: which definition?
            lines = text.split('\n')
            for m in re.finditer(r'^error(?:\[E\d+\])?: (.*)\n\s*--> src/main.rs:(\d+)', getattr(w, 'build_log', ''), re.M):
                l = lines[int(m.group(2)) - 1]
                if 'EnumLike)]' in l:
                    w.found, w.text = True, 'the impl derived for this definition does not compile (%s):\n%s' % (m.group(1), l)
                    w.cmd = 'cargo build of a crate with this definition'
                    break
        if (mods != self.always(ctx) or ctx.tier == 'thorough') and not w.found and not w.error:
            reject(ctx, w, ['enum_like', 'enum_like_derive'], DV_TYPES, DV_BIG, DV_FITS)
        return w

    def trusted(self, ctx, units):
        return sorted({'external_body ' + x for u in units for x in u.external if x not in ('laws', 'NUM_VARIANTS', 'to_discr', 'from_discr', 'clone')}
                      | {'rustc macro expansion (-Zunpretty=expanded) of the family of types', 'assume_specification usize::wrapping_rem, usize::wrapping_div', 'impls of bool and Option (C10)'})

    def assumptions(self, ctx):
        return ['the definitions of the family (vf/shapes.py) stand for the shapes of user types: proofs are per definition, over all component types',
                'component types obey the EnumLike contract (they may have no value); constants that do not fit usize are rejected at compile time', 'the numbering of today is the specification of the proofs', 'usize has 64 bits']
