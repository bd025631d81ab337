"""The groups of properties: what to extract, how to replay."""
import os, re, shutil, signal, subprocess, time, traceback
import verus, emit, rustlex

_ver = None
DEADLINE = None         # quick tier: the check has to answer by then


def verus_version():
    global _ver
    if _ver is None:
        try:
            s = subprocess.run(['verus', '--version'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60).stdout.decode()
            _ver = re.search(r'Version: (\S+)', s).group(1)
        except Exception:
            _ver = '?'
    return _ver


class Ctx:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Unit:
    def __init__(self, name, gen, replay, variant=None):
        self.name, self.gen, self.replay, self.variant = name, gen, replay, variant
        self.ok = self.alarm = False
        self.verified = 0
        self.failed, self.functions, self.slow = [], [], []
        self.smt = self.time = 0.0
        self.cmd = self.rendered = ''
        self.lost = None
        self.missing = []
        self.soft = []
        self.note = ''
        self.inlined = []
        self.external = []

    def obligations(self):
        return ['%s in %s (source line %s): %s' % (f['kind'], f['fn'], ', '.join(map(str, f['src'])) or '-', f['clause']) for f in self.failed]

    def why(self):
        if self.lost:
            return 'not decided by the verifier: ' + self.lost
        if self.missing or self.soft and not self.alarm:
            return 'contracts lost their place: ' + '; '.join((self.missing + self.soft)[:4])
        return 'obligations fail: ' + '; '.join(self.obligations()[:3])


def decide(ctx, fam, u):
    """extract, verify, classify"""
    var = u.variant() if u.variant else None
    try:
        out, info = u.gen(var) if var else u.gen()
    except (emit.Lost, rustlex.LexError) as e:
        u.lost = str(e)
        return u
    except Exception as e:
        u.lost = 'extraction failed: %r' % e
        u.rendered = traceback.format_exc()
        return u
    r = check(ctx, fam, u, out, info)
    u.verified, u.failed, u.time, u.smt, u.slow, u.cmd, u.rendered = r.verified, r.failed, r.time, r.smt, r.slow, r.cmd, r.rendered[:20000]
    u.lost = r.lost
    u.missing = info['missing']
    u.soft = info.get('soft', [])
    u.inlined = info.get('inlined', [])
    if r.lost and info.get('soft'):
        u.lost += ' (' + '; '.join(u.soft[:3]) + ')'
    counted = r.lost is None and not u.missing
    # the code may only have been written another way: other loop invariants, same contracts
    t1 = time.time()
    last = r
    while var and not last.ok and last.lost is None and not u.missing and time.time() - t1 < 150 and time.time() - ctx.t0 < 330 and var.advance(last.failed):
        try:
            out2, info2 = u.gen(var)
        except (emit.Lost, rustlex.LexError):
            break
        last = check(ctx, fam, u, out2, info2)
        if last.ok:
            r, info, out = last, info2, out2
            u.verified, u.failed, u.smt, u.cmd = r.verified, [], r.smt, r.cmd
            u.note = 'other loop invariants: ' + ', '.join(sorted(k for k in set(var.alts) | set(var.drop) if var.alts.get(k) or var.drop.get(k)))
    u.time = time.time() - t1 + r.time
    if counted:
        if r.ok:
            u.ok = True
            if ctx.tier == 'thorough' and info.get('vacuity'):
                v = info['vacuity']()
                bad = vacuous(ctx, fam, u, *v)
                if bad:
                    u.ok, u.lost = False, 'vacuous: ' + bad
        else:
            # a violation of this property only if its own kind of obligation fails in extracted code
            u.alarm = not u.soft and any(f['fn'] and fam.counts(ctx, f) for f in r.failed)
    return u


def check(ctx, fam, u, out, info):
    u.functions = info['done']
    path = os.path.join(ctx.build, u.name + '.rs')
    text = out.text()
    open(path, 'w').write(text)
    u.external = re.findall(r'external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(?:proof )?(?:fn|struct) (\w+)', text)
    u.external += ['axiom ' + x for x in re.findall(r'pub axiom fn (\w+)', text)]
    if re.search(r'\b(assume|admit)\s*\(', text):
        r = verus.Res()
        r.lost = 'assume/admit in the generated text'
        return r
    return verus.run(path, out, timeout=getattr(fam, 'timeout', 480) if ctx.tier == 'thorough' else max(60, min(getattr(fam, 'timeout', 480), ctx.t0 + 590 - time.time())), expect=info.get('expect', ('vp_must_fail',)))


def vacuous(ctx, fam, u, out, info):
    """every `assert(false)` planted at a function entry must fail"""
    path = os.path.join(ctx.build, u.name + '_vac.rs')
    open(path, 'w').write(out.text())
    r = verus.run(path, out, timeout=getattr(fam, 'timeout', 480), expect=())
    hit = {f['fn'] for f in r.failed if 'vp_vacuous' in f['clause'] or f['kind'].startswith('assertion')}
    miss = set(info['planted']) - hit
    return ', '.join(sorted(miss)) if miss else ''


class Wit:
    def __init__(self):
        self.found, self.text, self.cmd, self.cases, self.nontriv, self.samples, self.rule, self.why = False, '', '', 0, 0, [], '', ''
        self.error = None

    def known(self, known):
        return [k for k in known if k and k.split(' ', 1)[0] in self.text] if self.found else []


def sh(cmd, cwd, timeout, env=None, mem_gb=8):
    """-> (rc or None on timeout, output)"""
    e = dict(os.environ)
    e.update(env or {})
    pre = 'ulimit -v %d; ulimit -c 0; ' % (mem_gb * 1024 * 1024) if mem_gb else ''
    cut = DEADLINE is not None and time.time() + timeout > DEADLINE
    if cut:
        timeout = max(3, DEADLINE - time.time())
    p = subprocess.Popen(['bash', '-c', pre + 'exec "$@"', 'x'] + cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, _ = p.communicate()
        # out of time is not the program's fault when the time was cut short: no verdict (as exit 3 without FAIL)
        return (3 if cut else None), o.decode('utf8', 'replace')


def crate(ctx, name, extra=None):
    """copy a witness crate to the build directory, pointing at the tree under test"""
    d = os.path.join(ctx.build, 'crate_' + name)
    shutil.copytree(os.path.join(ctx.here, 'witness', name), d, ignore=shutil.ignore_patterns('target', '__pycache__'))
    t = open(os.path.join(d, 'Cargo.toml')).read().replace('"/repo/', '"%s/' % ctx.repo)
    open(os.path.join(d, 'Cargo.toml'), 'w').write(t)
    return d


def of(prop):
    import fam_ev, fam_local
    for f in (fam_ev.Ev(), fam_ev.Dbg(), fam_local.Local(), fam_local.Es(), fam_local.Dv()):
        if f.has(prop):
            return f
    raise SystemExit('unknown property ' + prop)
