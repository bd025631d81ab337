"""Generate the Verus file for one EnumVec module from /repo's current source."""
import os, sys, re
sys.path.insert(0, os.path.dirname(__file__))
from rustlex import *
from emit import *
from emit import norm as emit_norm
import ev_spec
import inline, canon

HERE = os.path.dirname(os.path.abspath(__file__))
MODULES = ['vec_u8', 'vec_u16', 'vec_u32', 'vec_u64', 'vec_u128', 'smallvec_u32']


def fill(s, W):
    blk = 'u%d' % W
    mk = ''
    for b in range(1, W + 1):
        mk += '    %sif b == %d { assert(mk(%d) as int == p2(%d) - 1) by (compute_only); }\n' % ('else ' if b > 1 else '', b, b, b)
    one = ''
    for b in range(1, W + 1):
        one += '    %sif b == %d { assert(one_of(%d) as int == rep(1, %d, %d)) by (compute_only); assert(%dint / b == %d) by { assert(%dint / %d == %d) by (compute_only); } }\n' % ('else ' if b > 1 else '', b, b, b, W // b, W, W // b, W, b, W // b)
    bits = 'proof { let n = T::NUM_VARIANTS as nat;\n'
    for k in range(0, 64):
        ty = 'usize' if k < 32 else 'u64'
        bits += 'assert((1%s << %d) == %d) by (compute_only); ' % (ty, k, 1 << k)
        bits += 'assert(p2(%d) == %d) by (compute_only);\n' % (k, 1 << k)
    bits += 'assert(p2(64) == %d) by (compute_only);\n' % (1 << 64)
    for k in range(1, 65):
        bits += '%sif n <= %d { lemma_bits_for(n, %d); }\n' % ('else ' if k > 1 else '', 1 << k, k)
    bits += '}'
    err = 'proof { ' + ' '.join('assert((1%s << %d) == %d) by (compute_only);' % (t, k, 1 << k) for k in range(64) for t in ('usize', 'u64')) + ' }'
    rep = {'W': str(W), 'BLK': blk, 'MKCASES': mk, 'ONECASES': one, 'POW2W': str(1 << W), 'MAXBLOCKS': str((1 << 60) // W),
           'BITS_ENTRY': bits, 'ERR_ENTRY': err}
    for a, b in rep.items():
        s = s.replace('@%s@' % a, b)
    return s


PANICS_A = '''
// mode A: no panic can happen (preconditions of the operation hold)
#[verifier::external_body] pub fn vp_panic() -> ! requires false { panic!() }
pub fn vp_assert(c: bool) requires c { }
pub fn vp_debug_assert(c: bool) requires c { }
pub trait VpExpect<A>: Sized { spec fn x(self) -> Option<A>; fn vp_expect(self) -> (r: A) requires self.x() is Some ensures Some(r) == self.x(); }
impl<A> VpExpect<A> for Option<A> { open spec fn x(self) -> Option<A> { self } fn vp_expect(self) -> (r: A) { self.unwrap() } }
'''
PANICS_B = '''
// mode B: any argument; a panic does not return
#[verifier::external_body] pub fn vp_panic() -> ! { panic!() }
#[verifier::external_body] pub fn vp_assert(c: bool) ensures c { assert!(c) }
pub fn vp_debug_assert(c: bool) { }
pub trait VpExpect<A>: Sized { spec fn x(self) -> Option<A>; fn vp_expect(self) -> (r: A) ensures Some(r) == self.x(); fn vp_unwrap(self) -> (r: A) ensures Some(r) == self.x(); }
impl<A> VpExpect<A> for Option<A> { open spec fn x(self) -> Option<A> { self }
  #[verifier::external_body] fn vp_expect(self) -> (r: A) { self.unwrap() } #[verifier::external_body] fn vp_unwrap(self) -> (r: A) { self.unwrap() } }
// subtraction that may wrap (release build) or panic (debug build)
#[verifier::external_body] pub fn vp_wsub(a: usize, b: usize) -> (r: usize) ensures a >= b ==> r == a - b, a < b ==> r == a - b + 0x1_0000_0000_0000_0000 { a.wrapping_sub(b) }
'''


def clauses(lst, prop):
    out = []
    for c in lst:
        if isinstance(c, tuple):
            if prop is None or c[0] == prop:
                out.append(c[1])
        else:
            out.append(c)
    return out


def emit_fn(o, fn, spec, consts, prop, mode, W, modname, missing, where, vacuity=False):
    name = fn.name
    out_name = METHODS.get(name, name)
    if spec.get('const'):
        # const NAME: TY = EXPR;  ->  fn NAME() -> (r: TY) ensures .. { EXPR }
        t = fn.toks
        c = [k for k, x in enumerate(t) if x.s == ':'][0]
        eq = [k for k, x in enumerate(t) if x.s == '=' and k > c][0]
        ty = t[c + 1:eq]
        expr = t[eq + 1:-1]
        sig = [Tok('id', 'fn', t[0].line), Tok('id', name, t[0].line)] + lex_at('()', t[0].line)
        ret = ty
        body = [Tok('op', '{', t[0].line)] + expr + [Tok('op', '}', t[-1].line)]
        params = sig
    else:
        sig = list(fn.sig)
        # split return type / where
        k = next(j for j, x in enumerate(sig) if x.s == '(' )
        if sig[2].s == '<':
            g = match_angle(sig, 2)
            k = next(j for j, x in enumerate(sig) if j > g and x.s == '(')
        e = match(sig, k)
        params = sig[:e + 1]
        rest = sig[e + 1:]
        ret = []
        wh = []
        if rest and rest[0].s == '->':
            r = rest[1:]
            w = next((j for j, x in enumerate(r) if x.s == 'where'), len(r))
            ret, wh = r[:w], r[w:]
        elif rest and rest[0].s == 'where':
            wh = rest
        body = fn.body
    body = [body[0]] + collected(tidy(body[1:-1], spec, where, missing), src(ret)) + [body[-1]]
    body = [body[0]] + inject_hints(body[1:-1], [dict(h, text=fill(h['text'], W)) for h in spec.get('hints', [])], where, missing) + [body[-1]]
    if name == 'fmt':
        spec = dict(spec, loops=fmt_loops(body))
        params, ret, body = fmt_words(params), fmt_words(ret), fmt_words(body)
    rw = lambda ts: rewrite(ts, consts, None, 'Bw' if mode == 'B' and spec.get('wsub') else mode)
    params, ret = rw(params), rw(ret)
    body = deref_refs(rw(body))
    sp = dict(spec)
    fl = lambda x: fill(x, W) if isinstance(x, str) else [fill(y, W) for y in x] if isinstance(x, list) else x
    sp['loops'] = [{a: fl([x for x in clauses(c, prop) if not (mode == 'B' and ROOMY.search(x))] if a == 'inv' else c) for a, c in l.items()} for l in spec.get('loops', [])]
    sp['closures'] = [{a: fl(c) for a, c in l.items()} for l in spec.get('closures', [])]
    uw = unwind(sig, src(ret), spec) if prop == 'C07' and spec.get('on_vec') and not spec.get('const') and spec.get('unwind', ()) is not None else None
    if uw:
        sp['loops'] = [dict(l, inv=list(l.get('inv', [])) + uw['inv']) for l in sp['loops']]
        body = unwind_points(body, sig, uw)
    em = Emitter(body, sp, where)
    inner = em.body(body[1:-1])
    if spec.get('ret'):
        inner = [Raw('let vp_r: %s = {' % src(ret))] + inner + [Raw('};\n' + fill(spec['ret'], W) + '\n vp_r')]
    start = len(o.lines)
    o.raw('\n')
    if spec.get('loops'):
        o.raw('#[verifier::loop_isolation(false)]\n')
    for a in spec.get('attrs', []):
        o.raw(a + '\n')
    o.raw('pub ' if not spec.get('in_trait') else '')
    if 'unsafe' in getattr(fn, 'quals', []):
        o.raw('/* unsafe */ ')
    o.toks(params)
    if ret:
        o.raw(' -> (r: ')
        o.toks(ret)
        o.raw(')')
    if not spec.get('const') and wh:
        o.raw(' ')
        o.toks(rw(wh))
    req = [fill(c, W) for c in (uw['req'] if uw else []) + clauses(spec.get('req', []) + (spec.get('reqA', []) if mode == 'A' else []), prop) if not (mode == 'B' and ROOMY.search(c))]
    ens = [fill(c, W) for c in clauses(spec.get('ens', []), prop) + (uw['ens'] if uw else [])]
    if req:
        o.raw('\n    requires\n' + ''.join('        %s,\n' % c for c in req))
    if ens:
        o.raw('\n    ensures\n' + ''.join('        %s,\n' % c for c in ens))
    if spec.get('const') or spec.get('rec'):
        pass
    o.raw('\n{\n' + ('assert(false); /* vp_vacuous */ ' if vacuity else '') + ev_spec.ENTRY + (' proof { lemma_unwind::<T>(); }' if uw and (uw['ens'] or uw['inv']) else '') + '\n' + fill(spec.get('entry', ''), W) + '\n')
    o.toks(inner)
    if spec.get('end'):
        # unit-valued function: proof after the last statement
        if inner and inner[-1].k != 'raw' and inner[-1].s not in (';', '}'):
            o.raw(';')
        o.raw('\n' + fill(spec['end'], W) + '\n')
    o.raw('}\n')
    o.marks.append((start, len(o.lines), name, where))


def unwind(sig, ret, spec):
    """C07: every slot of the storage stays decodable, so that a panic of the caller's code leaves a vector safe to use"""
    t = src(sig).replace(' ', '')
    r = dict(req=[], ens=[], inv=[], self=False)
    for n in (['self'] if re.search(r"&('[a-z]+)?mutself", t) else []) + re.findall(r"(\w+):&(?:'[a-z]+)?mut(?:Self|EnumVec<T>)", t):
        r['self'] = r['self'] or n == 'self'
        if not spec.get('in_trait'):
            r['req'].append('old(%s).oks()' % n)
            r['ens'].append('final(%s).oks()' % n)
        r['inv'].append('%s.oks()' % n)
    if ret.replace(' ', '') in ('Self', 'EnumVec<T>'):
        r['ens'].append('self.oks() ==> r.oks()' if re.search(r"\(&('[a-z]+)?self", t) else 'r.oks()')
    r['inv'] += spec.get('unwind', [])
    r['ens'] += spec.get('unwind_ens', [])
    r['req'] += spec.get('unwind_req', [])
    return r


def unwind_points(body, sig, uw):
    """before each statement that calls code of the caller: a panic here must leave a vector that is safe to use"""
    if not uw['self']:
        return body
    t = [x.s for x in sig]
    fs = {t[k - 1] for k in range(1, len(t)) if t[k] == ':'}
    at = set()
    for k in range(1, len(body) - 1):
        if body[k].k == 'id' and body[k + 1].s == '(' and (body[k].s in fs and body[k - 1].s != '.' or body[k].s == 'vp_next' and body[k - 1].s == '.'):
            j = k
            while body[j - 1].s not in (';', '{', '}') or body[j - 1].k == 'raw':
                j -= 1
            if body[j - 1].s == '{' and body[j - 2].s in ('=>', '|') or body[j].s == 'else':
                continue
            at.add(j)
    out = []
    for k, x in enumerate(body):
        if k in at:
            out.append(Raw('proof { assert(self.shape() && self.oks()); /* unwind */ }\n'))
        out.append(x)
    return out


def lex_at(s, line):
    return [Tok(t.k, t.s, line) for t in lex(s)]


def split_commas(toks):
    out, cur, d, j = [], [], 0, 0
    while j < len(toks):
        t = toks[j]
        if t.s in ('(', '[', '{'):
            m = match(toks, j); cur += toks[j:m + 1]; j = m + 1; continue
        if t.s == '<': d += 1
        if t.s == '>': d -= 1
        if t.s == ',' and d == 0:
            if cur: out.append(cur)
            cur = []
        else:
            cur.append(t)
        j += 1
    if cur: out.append(cur)
    return out


SKIP_BARE = {'next', 'next_back', 'size_hint', 'count', 'nth', 'from', 'into', 'hash', 'eq', 'clone', 'into_iter'}
PREFIX = {None: '', 'Default': 'Default::', 'Extend<T>': 'Extend::', 'FromIterator<T>': 'FromIterator::', 'From<Vec<T>>': 'From::',
          'Into<Vec<T>>': 'Into::', 'PartialEq': 'PartialEq::', 'Hash': 'Hash::', 'Clone': 'Clone::', 'Eq': 'Eq::'}
ITERS = ('Iterator', 'DoubleEndedIterator', 'ExactSizeIterator')


def impl_kind(it):
    """(prefix, group) of an impl block, or None when it is not under contract"""
    ty = src(it.ty)
    tr = src(it.trait).replace(' ', '') if it.trait else None
    if tr is not None:
        tr = re.sub(r'^(::)?(std|core)::(\w+::)*', '', tr)
    if ty == 'EnumVec < T >' and tr in PREFIX:
        return PREFIX[tr], tr
    if tr == 'IntoIterator' and re.match(r"^(& ('\w+ )?)?EnumVec < T >$", ty):
        return ('&' if ty.startswith('&') else '') + 'IntoIterator::', 'IntoIterator'
    if tr in ITERS and it.ty[0].s in ev_spec.ITER_MODEL:
        return it.ty[0].s + '::', tr
    if tr in ('fmt::Debug', 'Debug') and ty == 'EnumVec < T >':
        return 'Debug::', 'Debug'
    return None, None


def refs(toks):
    out = set()
    for i, t in enumerate(toks):
        if t.k != 'id' or i + 1 >= len(toks):
            continue
        pv = toks[i - 1].s if i else ''
        pp = toks[i - 2].s if i > 1 else ''
        nx = toks[i + 1].s
        if pv == '::' or (pv == '.' and pp not in ('storage', 'range', 'iter', 'state') and nx in ('(', '::')):
            out.add(t.s)
        elif nx == '(' and pv not in ('.', 'fn'):
            out.add(t.s)
    return out


def prune_lemmas(text, kept_text):
    """keep the proof functions (transitively) named in the kept text"""
    chunks = re.split(r'(?m)^(?=pub |#\[|impl|//)', text)
    proofs = {}
    rest = []
    for c in chunks:
        m = re.match(r'pub proof fn (\w+)', c)
        if m:
            proofs[m.group(1)] = c
        rest.append((m.group(1) if m else None, c))
    need, todo = set(), set(re.findall(r'\w+', kept_text)) & set(proofs)
    for n, c in rest:
        if n is None:
            todo |= set(re.findall(r'\w+', c)) & set(proofs)
    while todo:
        x = todo.pop()
        if x in need:
            continue
        need.add(x)
        todo |= (set(re.findall(r'\w+', proofs[x])) & set(proofs)) - need
    return ''.join(c for n, c in rest if n is None or n in need)


def scan(repo, module):
    path = os.path.join(repo, 'enum_vec/src', module, 'mod.rs')
    return items(lex(open(path).read()))


def macro_fns(repo, missing):
    """the arms of enum_vec!, written out for an element and a count and for lists of 0 to 4 elements"""
    toks = lex(open(os.path.join(repo, 'enum_vec/src/lib.rs')).read())
    i = next((k for k in range(len(toks) - 3) if [t.s for t in toks[k:k + 4]] == ['macro_rules', '!', 'enum_vec', '{']), None)
    if i is None:
        raise Lost('macro enum_vec')
    e = match(toks, i + 3)
    j, arms = i + 4, []
    while j < e:
        a = match(toks, j)
        if toks[a + 1].s != '=>':
            raise Lost('macro enum_vec')
        b = match(toks, a + 2)
        arms.append((src(toks[j + 1:a]).replace(' ', ''), toks[a + 3:b]))
        j = b + 1
        while j < e and toks[j].s == ';':
            j += 1
    def subst(body, vals, lst):
        out, k = [], 0
        while k < len(body):
            t = body[k]
            if t.s == '$' and body[k + 1].k == 'id' and body[k + 1].s == 'crate':
                raise Lost('$crate in enum_vec!')
            if t.s == '$' and body[k + 1].k == 'id' and body[k + 1].s in vals:
                out += lex_at(vals[body[k + 1].s], t.line); k += 2; continue
            if t.s == '$' and body[k + 1].s == '(' and lst is not None:
                m = match(body, k + 1)
                sep = body[m + 1].s if body[m + 1].s != '*' else ''
                if body[m + 1 + bool(sep)].s != '*':
                    raise Lost('repetition in enum_vec!')
                for q, v in enumerate(lst[1]):
                    out += subst(body[k + 2:m], {lst[0]: v}, None)
                    if sep and q + 1 < len(lst[1]):
                        out += lex_at(sep, t.line)
                k = m + 2 + bool(sep); continue
            if t.s == '$':
                raise Lost('enum_vec!')
            out.append(t); k += 1
        return out
    out = []
    for pat, body in arms:
        m = re.match(r'^\$(\w+):expr;\$(\w+):expr$', pat)
        if m:
            b = subst(body, {m.group(1): 'vp_arg(vp_e, 0, vp_x)', m.group(2): 'vp_arg(vp_e, 1, vp_n)'}, None)
            out.append(('vp_macro_elem', 'vp_e: &mut VpEval, vp_x: T, vp_n: usize', b))
            continue
        m = re.match(r'^\$\(\$(\w+):expr\),\*(\$\(?,\)?[*?])?$', pat)
        if m:
            for c in range(5):
                b = subst(body, {}, (m.group(1), ['vp_next(vp_e, %d, vp_%d)' % (q, q) for q in range(c)]))
                out.append(('vp_macro_%d' % c, ', '.join(['vp_e: &mut VpEval'] + ['vp_%d: T' % q for q in range(c)]), b))
            continue
        raise Lost('arm of enum_vec!: ' + pat)
    if sorted(n for n, p, b in out) != ['vp_macro_%d' % c for c in range(5)] + ['vp_macro_elem']:
        raise Lost('arms of enum_vec!')
    return [items(lex('fn %s(%s) -> Self { %s }' % (n, p, src(b))))[0] for n, p, b in out]


# the expressions given to the macro: each is evaluated once, those of a list in order
MACRO_MODEL = """
#[verifier::external_body] pub struct VpEval { x: u8 }
impl VpEval { pub uninterp spec fn seen(&self) -> Set<int>; }
#[verifier::external_body] pub fn vp_arg<A>(e: &mut VpEval, k: usize, a: A) -> (r: A) requires !old(e).seen().contains(k as int)
    ensures r == a, final(e).seen() == old(e).seen().insert(k as int) { a }
#[verifier::external_body] pub fn vp_next<A>(e: &mut VpEval, k: usize, a: A) -> (r: A) requires !old(e).seen().contains(k as int), forall|i: int| 0 <= i < k ==> #[trigger] old(e).seen().contains(i)
    ensures r == a, final(e).seen() == old(e).seen().insert(k as int) { a }
"""


class Variant:
    """proof annotations other than the usual ones: an alternative set for a
    function (alts), auxiliary loop invariants left out (drop).  Contracts are
    never touched, so whatever the verifier accepts is a proof."""
    def __init__(self):
        self.alts, self.drop, self.tried = {}, {}, 0

    def advance(self, failed):
        moved = False
        last = {}
        for f in failed:
            k = f['fn']
            if k is None:
                continue
            inv = 'invariant' in f['kind']
            last.setdefault(k, []).append((inv, f['clause']))
        for k, fs in last.items():
            d = self.drop.setdefault(k, set())
            new = {emit_norm(c) for inv, cl in fs if inv for c in cl.split(' | ')} - d
            if new:
                d |= new
                moved = True
            else:
                n = k.split('::')[-1]
                alts = ev_spec.FNS.get(n, {}).get('alts', [])
                if self.alts.get(k, 0) < len(alts):
                    self.alts[k] = self.alts.get(k, 0) + 1
                    self.drop[k] = set()
                    moved = True
        self.tried += 1
        return moved and self.tried < 6


ROOMY = re.compile(r'\.room\(|max_blocks\(\)|< usize::MAX|<= usize::MAX')


def roomy(model):
    """storage beyond max_blocks() is not a precondition: the allocation fails, so the call does not return"""
    a = model.index('pub fn vp_storage_with_capacity')
    b = model.index('impl VpStorageExt for Storage')
    t = model[a:b]
    t = re.sub(r'requires ([^,;]*max_blocks\(\)),\s*ensures ', r'ensures \1, ', t)
    assert 'requires' not in re.sub(r'requires i < \w+(\(\w+\))?\.sv', '', t), t
    return model[:a] + t + model[b:]


def ext_specs(prop):
    s = ev_spec.EXT_SPECS % (ev_spec.EXT_C08 if prop in (None, 'C08') else ' && f.oks()' if prop == 'C07' else '')
    return re.sub(r'(ext_pre.*?) && self.room\(.*?\}', r'\1 && self.oks() }', s, count=1) if prop == 'C07' else s


def generate(repo, module, prop=None, mode='A', roots=None, vacuity=False, var=None):
    """-> Out, info.  roots: function keys to decide (None: all)"""
    var = var or Variant()
    soft = []
    try:
        its = scan(repo, module)
    except (LexError, IndexError, AssertionError) as e:
        raise Lost('cannot scan %s: %s' % (module, e))
    missing = []
    W = blk = None
    fns, blocks, structs = {}, [], {}
    derives = []
    # helpers and constants without a contract: inlined at their uses
    hm, hf, hac, hc = {}, {}, {}, {}
    for it in its:
        if it.kind == 'impl':
            pre, grp = impl_kind(it)
            if grp is None and pre == '':
                for x in it.inner:
                    if x.name not in ev_spec.FNS:
                        if x.kind == 'fn':
                            hm[x.name] = x
                        elif x.kind == 'const':
                            hac[x.name] = inline.const_expr(x)
        elif it.kind == 'fn':
            hf[it.name] = it
        elif it.kind == 'const' and it.name != 'STORAGE_BLOCK_SIZE':
            hc[it.name] = inline.const_expr(it)
    base = canon.load('ev')
    inl = inline.Inliner(hm, hf, hac, hc, {'EnumVec'})
    for it in its:
        if it.kind == 'const' and it.name == 'STORAGE_BLOCK_SIZE':
            W = int([t.s for t in it.toks if t.k == 'num'][0].replace('_', ''))
        elif it.kind == 'type' and it.name == 'StorageBlock':
            blk = it.toks[-2].s
        elif it.kind == 'type' and it.name == 'Storage':
            st = src(it.toks).split('=')[1].replace(' ', '')
            if st not in ('Vec<StorageBlock>;', 'SmallVec<[StorageBlock;4]>;'):
                missing.append('type Storage = ' + st)
        elif it.kind in ('fn', 'const') and (it.name in hf or it.name in hc):
            soft.append('no contract for ' + it.name)
        elif it.kind == 'type' and it.name == 'BitVec':
            pass
        elif it.kind == 'use':
            if not re.match(r'^use (:: )?(std|core|alloc|enum_like|smallvec) ::', src(it.toks)):
                missing.append('unknown ' + src(it.toks))
        elif it.kind == 'struct':
            structs[it.name] = it
            if it.name == 'EnumVec':
                derives = re.findall(r'\w+', ' '.join(a for a in it.attrs if a.startswith('derive')))
                flds = [(src(f[strip_vis(f, 0):]).replace(' ', '')) for f in split_commas(it.inner_toks)]
                if sorted(flds) != ['num_elements:usize', 'phantom:PhantomData<T>', 'storage:Storage']:
                    missing.append('fields of EnumVec')
            elif it.name not in ev_spec.ITER_MODEL:
                missing.append('unknown struct ' + it.name)
        elif it.kind == 'impl':
            pre, grp = impl_kind(it)
            if pre is None:
                missing.append('unknown impl of %s for %s' % (src(it.trait) if it.trait else '', src(it.ty)))
                continue
            blocks.append((it, pre, grp))
            for x in it.inner:
                if x.kind in ('fn', 'const'):
                    if x.name not in ev_spec.FNS:
                        if pre == '':
                            soft.append('no contract for ' + x.name)
                        else:
                            missing.append('no contract for ' + pre + x.name)
                        continue
                    fns[pre + x.name] = canon.canon_item(inline.inline_item(inl, x), base.get(pre + x.name))[0]
        else:
            missing.append('unknown item %s %s' % (it.kind, it.name))
    if W is None or blk != 'u%d' % W:
        raise Lost('StorageBlock / STORAGE_BLOCK_SIZE')
    if set(derives) - {'derive', 'Clone', 'Eq', 'Debug'}:
        missing.append('derives %s' % derives)
    if 'Clone' in derives:
        t = "fn clone(&self) -> Self { Self { storage: self.storage.clone(), num_elements: self.num_elements, phantom: PhantomData } }"
        fns['Clone::clone'] = items(lex(t))[0]
    consts = {x.name for it, pre, grp in blocks if pre == '' for x in it.inner if x.kind == 'const' and x.name in ev_spec.FNS}
    # closure over calls
    want = set(fns) if roots is None else set(roots) - {'vp_macro'}
    for k in sorted(want - set(fns)):
        missing.append('function %s is gone' % k)
    todo, keep = [k for k in want if k in fns], set()
    def pull(k):
        if k in fns and k not in keep:
            todo.append(k)
    while todo:
        k = todo.pop()
        if k in keep:
            continue
        keep.add(k)
        f = fns[k]
        for nm in refs(f.toks):
            if nm in SKIP_BARE:
                continue
            pull(nm)
            for p in ('Default::', 'Extend::', 'FromIterator::'):
                if p + nm in fns:
                    pull(p + nm)
        if k in ('iter', 'Debug::fmt'):
            pull('&IntoIterator::into_iter')
        if k.endswith('IntoIterator::into_iter'):
            want_it = 'EnumVecIter::' if k.startswith('&') else 'EnumVecIntoIter::'
            for q in fns:
                if q.startswith(want_it):
                    pull(q)
        for p in ev_spec.ITER_MODEL:
            if k.startswith(p + '::'):
                for q in fns:
                    if q.startswith(p + '::'):
                        pull(q)
    for c in ('BITS_PER_ELEM', 'ELEMS_PER_BLOCK', 'ELEMENT_MASK'):
        if c not in fns:
            raise Lost('constant %s' % c)
    body = Out()
    done = []
    G = 'impl<T: EnumLike>'
    def group(head, spec, pick, in_trait):
        body.raw('\n%s {\n%s\n' % (head, spec))
        for key, fn in pick:
            sp = dict(ev_spec.FNS[fn.name], in_trait=in_trait, on_vec='EnumVecI' not in head)
            if sp.get('entry') == '@ITER_ENTRY@':
                sp['entry'] = ev_spec.ITER_ENTRY[fn.name]
            alts = sp.pop('alts', [])
            at = var.alts.get(key, 0)
            while True:
                spk = dict(sp, **alts[at - 1]) if at else sp
                spk = dict(spk, drop=var.drop.get(key, ()))
                tmp, ms = Out(), []
                try:
                    emit_fn(tmp, fn, spk, consts, prop, mode, W, module, ms, key, vacuity=vacuity)
                    break
                except Lost:
                    if at >= len(alts):
                        raise
                    at += 1
            var.alts[key] = at
            body.extend(tmp)
            soft.extend(ms)
            done.append(key)
        body.raw('}\n')
    iters_kept = {p for p in ev_spec.ITER_MODEL if any(k.startswith(p + '::') for k in keep)}
    for p in sorted(iters_kept):
        if p not in structs:
            raise Lost('struct ' + p)
        m = ev_spec.ITER_MODEL[p]
        body.raw('pub struct %s%s {\n' % (p, m['gen']))
        for fld in split_commas(structs[p].inner_toks):
            k = strip_vis(fld, 0)
            body.raw('pub ')
            body.toks(rewrite(fld[k:], consts, None, mode))
            body.raw(',\n')
        body.raw('}\n')
    for it, pre, grp in blocks:
        pick = [(pre + x.name, fns[pre + x.name]) for x in it.inner if x.kind in ('fn', 'const') and pre + x.name in keep and x.name in ev_spec.FNS]
        if not pick and not (grp in ITERS and it.ty[0].s in iters_kept):
            continue
        if grp == 'Default':
            group(G + ' VpDefault for EnumVec<T>', '', pick, True)
        elif grp == 'Extend<T>':
            group(G + ' VpExtend<T> for EnumVec<T>', ext_specs(prop), pick, True)
        elif grp == 'IntoIterator':
            head = "impl<'a, T: EnumLike> VpIntoIterator for &'a EnumVec<T>" if pre.startswith('&') else G + ' VpIntoIterator for EnumVec<T>'
            ty = ''.join('type %s;\n' % src(x.toks[1:-1]) for x in it.inner if x.kind == 'type')
            group(head, ev_spec.INTO_SPECS + ty, pick, True)
        elif grp == 'Debug':
            group(G + ' EnumVec<T>', '', pick, False)
        elif grp in ITERS:
            m = ev_spec.ITER_MODEL[it.ty[0].s]
            ty = ''.join('type %s;\n' % src(x.toks[1:-1]) for x in it.inner if x.kind == 'type')
            group('impl%s Vp%s for %s' % (m['gen'], grp, m['ty']), (ev_spec.ITER_SPECS if grp == 'Iterator' else '') + ty, pick, True)
        else:
            group(G + ' EnumVec<T>', '', pick, False)
    if roots and 'vp_macro' in roots:
        mac = macro_fns(repo, missing)
        for m in mac:
            fns[m.name] = m
        group(G + ' EnumVec<T>', '', [(m.name, m) for m in mac], False)
    if 'Clone' in derives and 'Clone::clone' in keep:
        group(G + ' EnumVec<T>', '', [('Clone::clone', fns['Clone::clone'])], False)
    o = Out()
    o.raw('#![allow(non_snake_case, unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_assignments)]\nuse vstd::prelude::*;\nuse vstd::arithmetic::power2::*;\nuse vstd::arithmetic::div_mod::*;\nuse vstd::slice::*;\n')
    o.raw('verus! {\nglobal size_of usize == 8;\npub type Blk = %s;\npub type StorageBlock = %s;\npub type Storage = Vec<StorageBlock>;\npub const STORAGE_BLOCK_SIZE: usize = %d;\n' % (blk, blk, W))
    prel = fill(open(os.path.join(HERE, 'ev_prelude.rs')).read(), W)
    dbg = open(os.path.join(HERE, 'fmt_prelude.rs')).read() if 'Debug::fmt' in keep else ''
    model = dbg + fill(open(os.path.join(HERE, 'ev_model.rs')).read().replace('@PANICS@', PANICS_A if mode == 'A' else PANICS_B), W)
    spec = 'pub struct EnumVec<T: EnumLike> { pub storage: Storage, pub num_elements: usize, pub phantom: core::marker::PhantomData<T> }\n' + fill(ev_spec.SPEC_IMPL, W)
    lem = fill(ev_spec.LEMMAS, W)
    if mode == 'B':
        model = roomy(model)
    if prop == 'C07':
        lem += fill(ev_spec.UNWIND, W)
        # size_hint of an iterator of the caller may be wrong
        h = 'requires self.inv(),\n        ensures r.0 <= self.seq().len(), r.1 is Some ==> self.seq().len() <= r.1->0;'
        assert h in model
        model = model.replace(h, 'requires self.inv();')
        model = model.replace('    fn to_discr(self)', '''    // from_discr and to_discr are inverse both ways (C10 and C13 prove it for the impls provided)
    proof fn onto() ensures forall|d: usize| d < Self::NUM_VARIANTS ==> (#[trigger] Self::of_discr(d)).discr_of() == d;
    fn to_discr(self)''', 1)
    o.raw(prune_lemmas('\n'.join([prel, model, spec, lem]), body.text()))
    if roots and 'vp_macro' in roots:
        o.raw(MACRO_MODEL)
    o.extend(body)
    # a contradiction among the assumed contracts would prove this
    o.raw('\npub fn vp_must_fail<T: EnumLike>(v: EnumVec<T>) requires v.wf()' + (', v.oks() { proof { T::onto(); lemma_unwind::<T>(); } ' if prop == 'C07' else ' { ') + ev_spec.ENTRY + ' assert(false); }\n')
    o.marks.append((len(o.lines) - 3, len(o.lines), 'vp_must_fail', 'vp_must_fail'))
    o.raw('\n} // verus!\nfn main() {}\n')
    return o, dict(missing=missing, soft=soft, inlined=sorted(inl.used), done=done, planted=done, W=W, storage='SmallVec' if module.startswith('small') else 'Vec')


if __name__ == '__main__':
    import props
    repo, module = sys.argv[1], sys.argv[2]
    prop = sys.argv[4] if len(sys.argv) > 4 else None
    p = props.EV.get(prop, {})
    o, info = generate(repo, module, prop, p.get('mode', sys.argv[5] if len(sys.argv) > 5 else 'A'), p.get('roots'))
    open(sys.argv[3], 'w').write(o.text())
    print(info)
