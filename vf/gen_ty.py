"""C07: which element types the constants of EnumVec let through.

The constants that give the width of an element are extracted as functions of
the number of values, with checked arithmetic that does not return when it
overflows (such a constant does not compile).  What returns is a type that fits."""
import re
from rustlex import *
from emit import *
from gen_ev import scan, lex_at, impl_kind
from gen_el import checked, PANICS, HEAD, finish, emit_fn
import inline

# A type with fewer than two values has a width of zero bits, refused by the division
# in ELEMS_PER_BLOCK; too wide a type is refused by the subtraction in ELEMENT_MASK, if
# not before.  Elements are found with the one and decoded with the other.
KNOWN = {'BITS_PER_ELEM': ['2 <= vp_nv || r == 0', 'vp_nv <= @MAX@ || r > @W@'], 'ELEMS_PER_BLOCK': ['2 <= vp_nv'], 'ELEMENT_MASK': ['vp_nv <= @MAX@']}
CDIV = '''#[verifier::external_body] pub fn vp_cdiv(a: usize, b: usize) -> (r: usize) ensures b != 0, b != 0 ==> r == a / b { a / b }
#[verifier::external_body] pub fn vp_cshr(a: Blk, b: usize) -> (r: Blk) ensures b < @W@ { a >> b }
'''


def generate(repo, module, vacuity=False):
    its = scan(repo, module)
    W, hm, hf, hac, hc, known = None, {}, {}, {}, {}, {}
    for it in its:
        if it.kind == 'const' and it.name == 'STORAGE_BLOCK_SIZE':
            W = int([t.s for t in it.toks if t.k == 'num'][0].replace('_', ''))
        elif it.kind == 'fn':
            hf[it.name] = it
        elif it.kind == 'const':
            hc[it.name] = checked(inline.const_expr(it), 'vp_c')
        elif it.kind == 'impl' and impl_kind(it) == ('', None):
            for x in it.inner:
                if x.kind == 'const' and (x.name in KNOWN):
                    known[x.name] = x
                elif x.kind == 'const':
                    hac[x.name] = checked(inline.const_expr(x), 'vp_c')
                elif x.kind == 'fn':
                    hm[x.name] = x
    if W is None or 'BITS_PER_ELEM' not in known:
        raise Lost('BITS_PER_ELEM')
    inl = inline.Inliner(hm, hf, hac, hc, {'EnumVec'})
    missing, done = [], []
    o = Out()
    o.raw(HEAD + PANICS['B'] + 'pub type Blk = u%d; pub type StorageBlock = Blk;\n' % W + CDIV.replace('@W@', str(W)) + '\npub const STORAGE_BLOCK_SIZE: usize = %d;\n' % W)
    ent = ''
    for k in range(64):
        ent += ''.join('assert((1%s << %d) == %d) by (compute_only); ' % (t, k, 1 << k) for t in ('usize', 'u64'))
    for c in KNOWN:
        if c not in known:
            raise Lost(c)
        x = inline.inline_item(inl, known[c])
        eq = [k for k, t in enumerate(x.toks) if t.s == '='][0]
        out, t, i = [], x.toks[eq + 1:-1], 0
        while i < len(t):
            if [y.s for y in t[i:i + 3]] == ['T', '::', 'NUM_VARIANTS']:
                out += lex_at('vp_nv', t[i].line); i += 3; continue
            if [y.s for y in t[i:i + 6]] == ['<', 'T', 'as', 'EnumLike', '>', '::'] and t[i + 6].s == 'NUM_VARIANTS':
                out += lex_at('vp_nv', t[i].line); i += 7; continue
            if [y.s for y in t[i:i + 2]] == ['Self', '::'] and t[i + 2].s in KNOWN:
                out += lex_at('vp_any_%s(vp_nv)' % t[i + 2].s, t[i].line); i += 3; continue
            out.append(t[i]); i += 1
        d = [k for k, y in enumerate(out) if y.s == '/']
        e = checked(out, 'vp_c')
        if len(d) == 1 and e is out:
            e = lex_at('vp_cdiv(', 0) + checked(out[:d[0]], 'vp_c') + lex_at(',', 0) + checked(out[d[0] + 1:], 'vp_c') + lex_at(')', 0)
        j, sh = 0, []
        while j < len(out):
            if out[j].s in OPEN:
                j = match(out, j)
            elif out[j].s == '>>':
                sh.append(j)
            j += 1
        if len(sh) == 1 and e is out:
            r = out[sh[0] + 1:]
            e = lex_at('vp_cshr(', 0) + out[:sh[0]] + lex_at(',', 0) + checked(r, 'vp_c') + lex_at(')', 0)
        f = items(lex('fn vp_any_%s(vp_nv: usize) -> %s { %s }' % (c, 'Blk' if c == 'ELEMENT_MASK' else 'usize', src(e))))[0]
        f.name = c
        ens = [e.replace('@MAX@', str(1 << W)).replace('@W@', str(W)) for e in KNOWN[c] if W < 64 or '@' not in e]
        emit_fn(o, f, c, ens=ens, entry=ent, vac=vacuity, pub=True)
        done.append(c)
    o.raw('\n\n\n\npub fn vp_must_fail(vp_nv: usize) { let r = vp_any_BITS_PER_ELEM(vp_nv); assert(false); }\n')
    o.marks.append((len(o.lines) - 3, len(o.lines), 'vp_must_fail', 'vp_must_fail'))
    finish(o)
    return o, dict(missing=missing, soft=[], done=done, planted=done, inlined=sorted(inl.used))
