"""Run Verus on a generated file and classify what it reports."""
import json, os, re, signal, subprocess, time

OBLIG = re.compile(r'^(assertion failed|assertion not satisfied|postcondition not satisfied|precondition not satisfied|invariant not satisfied'
                   r'|possible arithmetic|possible division by zero|possible bit shift|decreases not satisfied|constant assertion|recommendation|unable to prove'
                   r'|function body check|loop ensures not satisfied|unreachable|failed|bitvector|cannot show|Call to non-static|possible truncation|possible )', re.I)
LIMIT = re.compile(r'rlimit|resource limit|timed? ?out|solver', re.I)


class Res:
    """ok: accepted; failed: list of dict(fn, kind, clause, line, src); lost: reason or None"""
    def __init__(self):
        self.ok, self.failed, self.lost = False, [], None
        self.verified = self.errors = 0
        self.time = self.smt = 0.0
        self.slow = []
        self.rendered = ''
        self.queries = 0


def run(path, out, timeout=480, rlimit=300, extra=(), expect=('vp_must_fail',)):
    """out: emit.Out the file was written from"""
    r = Res()
    t0 = time.time()
    cmd = ['verus', os.path.basename(path), '--rlimit', str(rlimit), '--multiple-errors', '3', '--num-threads', '1', '--no-report-long-running',
           '--output-json', '--time-expanded', '--error-format=json'] + list(extra)
    r.cmd = ' '.join(cmd)
    p = subprocess.Popen(cmd, cwd=os.path.dirname(path), stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        so, se = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)        # the solver too
        except OSError:
            pass
        p.communicate()
        r.lost = 'the verifier did not answer in %d s' % timeout
        r.time = time.time() - t0
        return r
    r.time = time.time() - t0
    try:
        s = so.decode('utf8', 'replace')
        j = json.loads(s[s.index('{'):])
        vr = j['verification-results']
        if 'verified' not in vr or vr.get('encountered-vir-error'):
            r.lost = 'the verifier does not take the extracted text'
        else:
            r.verified, r.errors = vr['verified'], vr['errors']
        if 'times-ms' in j:
            smt = j['times-ms'].get('smt') or {'smt-run': 0, 'smt-run-module-times': []}
            r.smt = smt['smt-run'] / 1000.0
            for m in smt['smt-run-module-times']:
                fb = m.get('function-breakdown', [])
                r.queries += len(fb)
                r.slow += [(f['function'].split('::', 1)[1], f['time'] / 1000.0) for f in fb]
            r.slow = sorted(r.slow, key=lambda x: -x[1])[:5]
    except (ValueError, KeyError) as e:
        r.lost = 'no verdict from the verifier (%s)' % e
    diags = []
    for line in se.decode('utf8', 'replace').split('\n'):
        if line.startswith('{'):
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d.get('level') == 'error' and not d['message'].startswith('aborting'):
                diags.append(d)
    seen = set()
    for d in diags:
        r.rendered += d.get('rendered') or d['message']
        spans = d['spans']
        prim = [s for s in spans if s['is_primary']] or spans
        line = prim[0]['line_start'] if prim else None
        fns = {mark_of(out, s['line_start']) for s in spans} - {None}
        if d.get('code') is not None or not (OBLIG.match(d['message'])):
            if LIMIT.search(d['message']):
                r.lost = r.lost or 'solver limit: ' + d['message']
            else:
                r.lost = r.lost or 'the verifier does not take the extracted text: ' + d['message'][:200]
            continue
        # the function whose body is being checked: the marked function of any span
        body = None
        for s in prim + spans:
            m = mark_of(out, s['line_start'])
            if m:
                body = m
                break
        if 'vp_must_fail' in fns or (body or '').startswith('vp_must_fail'):
            seen.add(body)
            continue
        cl = ' | '.join(clip(s) for s in spans)
        srcl = [out.map[s['line_start'] - 1] for s in spans if s['line_start'] - 1 < len(out.map) and out.map[s['line_start'] - 1]]
        r.failed.append(dict(fn=body, kind=d['message'], clause=cl, line=line, src=sorted(set(srcl))))
    if r.lost is None:
        miss = set(expect) - seen
        if miss:
            r.lost = 'vacuity guard: %s was accepted' % ', '.join(sorted(miss))
        elif not r.failed and r.errors != len(expect):
            r.lost = 'unexplained errors from the verifier'
        elif not r.failed and r.verified > 0:
            r.ok = True
    return r


def clip(s):
    if not s['text']:
        return ''
    if len(s['text']) > 1:
        return ' '.join(t['text'].strip() for t in s['text'])[:300]
    t = s['text'][0]
    return t['text'][t['highlight_start'] - 1:t['highlight_end'] - 1].strip()[:300]


def mark_of(out, line):
    # line is 1-based; marks hold 0-based line ranges
    for a, b, n, w in out.marks:
        if a < line <= b + 1:
            return w
    return None
