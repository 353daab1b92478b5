#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough]   decide one property on /repo's current tree
   check.py --baseline                      regenerate /verif/baseline (unchanged tree only)
   check.py --build                         build the extractor and the search harness

Deciding step: the contracts of /verif/specs are put on the functions extracted
from /repo's current source (vx), Verus must discharge every obligation.  The
native search (harness/vh) runs the real crate on concrete inputs; it produces
the failing inputs for violations and the bounded stand-in where a function is
out of the verifier's reach.  See DESIGN.md.
"""
import json, os, re, subprocess, sys, threading, time, shutil

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
B = os.path.join(V, 'build')
sys.path.insert(0, os.path.join(V, 'tools'))
from props import UNITS, PROPS  # noqa: E402

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
T0 = time.time()
ENV = dict(os.environ, CARGO_NET_OFFLINE='true')
LOG = []


def log(*a):
    s = ' '.join(str(x) for x in a)
    LOG.append(s)
    print('[%6.1fs] %s' % (time.time() - T0, s), flush=True)


def sh(cmd, timeout=None, env=None, cwd=None):
    """run, return (rc, out, err); rc None on timeout"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace',
                         env=env or ENV, cwd=cwd, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        o, e = p.communicate()
        return None, o, e


# ---------------------------------------------------------------- building

def build_vx():
    rc, o, e = sh(['cargo', 'build', '--offline', '--manifest-path', V + '/vx/Cargo.toml'], timeout=600,
                  env=dict(ENV, CARGO_TARGET_DIR=B + '/vx'))
    if rc != 0:
        return None, e[-3000:]
    return B + '/vx/debug/vx', ''


def build_harness():
    env = dict(ENV, CARGO_TARGET_DIR=B + '/harness')
    src = V + '/harness'
    if REPO != '/repo':  # trials on a copy: the same harness, with its path dependency moved
        src = B + '/hcopy'
        shutil.rmtree(src, ignore_errors=True)
        shutil.copytree(V + '/harness', src, ignore=shutil.ignore_patterns('target'))
        c = open(src + '/Cargo.toml').read().replace('"/repo"', '"%s"' % REPO)
        open(src + '/Cargo.toml', 'w').write(c)
    cmd = ['cargo', 'build', '--offline', '--manifest-path', src + '/Cargo.toml']
    rc, o, e = sh(cmd, timeout=600, env=env)
    if rc != 0:
        return None, e[-3000:]
    return B + '/harness/debug/vh', ''


# ---------------------------------------------------------------- proving

class Unit:
    """result of verifying one unit"""

    def __init__(self, name):
        self.name = name
        self.ok = False              # every obligation discharged
        self.inconclusive = None     # reason the unit could not be verified at all
        self.verified = 0
        self.errors = 0
        self.failures = []           # dicts: fn, kind, message, line, text, lemma
        self.stubbed = {}            # fn -> reason (outside the verifier's reach on this tree)
        self.map = None
        self.break_down = []
        self.wall = 0.0
        self.file = None
        self.canary = None


def fn_at(fmap, line):
    best = None
    for f in fmap['fns']:
        a, b = f['out']
        if a <= line <= b and (best is None or (b - a) < (best['out'][1] - best['out'][0])):
            best = f
    return best


def extract(vx, unit, out, stubs, baseline_tsv, canary=False):
    u = UNITS[unit]
    cmd = [vx, '--out', out, '--libs', ','.join(u['libs']), '--modules', ','.join(u['modules']),
           '--spec-files', ','.join(u['specs']), '--repo', REPO, '--specs', V + '/specs']
    if baseline_tsv and os.path.exists(baseline_tsv):
        cmd += ['--baseline', baseline_tsv]
    if stubs:
        cmd += ['--stub', '\t'.join(sorted(stubs))]
    if canary:
        cmd += ['--canary']
    rc, o, e = sh(cmd, timeout=120)
    if rc != 0:
        return None, (e or o or 'extractor killed')[-2000:]
    return json.load(open(out + '.map.json')), ''


def run_verus(f, timeout, rlimit, multiple=8, extra=()):
    rc, o, e = sh(['verus', os.path.basename(f), '--output-json', '--time-expanded', '--error-format=json',
                   '--multiple-errors', str(multiple), '--rlimit', str(rlimit), *extra],
                  timeout=timeout, cwd=os.path.dirname(f))
    diags = []
    for l in e.splitlines():
        l = l.strip()
        if l.startswith('{'):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get('level') == 'error' and not d.get('message', '').startswith('aborting due to'):
                diags.append(d)
    res = None
    try:
        res = json.loads(o)
    except ValueError:
        i = o.find('{')
        if i >= 0:
            try:
                res = json.loads(o[i:])
            except ValueError:
                res = None
    return rc, res, diags, o, e


BODY = re.compile(r'at the end of the function body|at this exit|at the end of the loop body|this return')


def diag_line(d):
    """the line of the failing program point (the function being checked)"""
    prim = sec = None
    for s in d.get('spans', []):
        lab = s.get('label') or ''
        if BODY.search(lab):
            sec = s
        if s.get('is_primary') and prim is None:
            prim = s
    s = sec or prim
    return (s or {}).get('line_start'), (prim or {}).get('line_start')


def prove(vx, unit, timeout, rlimit, canary=False):
    r = Unit(unit)
    t0 = time.time()
    d = os.path.join(B, 'units')
    os.makedirs(d, exist_ok=True)
    tag = unit + ('_canary' if canary else '')
    f = os.path.join(d, tag + '.rs')
    r.file = f
    tsv = os.path.join(V, 'baseline', unit + '.tsv')
    deadline = time.time() + timeout
    for rnd in range(9):
        m, err = extract(vx, unit, f, r.stubbed.keys(), tsv, canary)
        if m is None:
            r.inconclusive = 'extraction failed: ' + err.strip()[-600:]
            break
        r.map = m
        left = deadline - time.time()
        if left < 5:
            r.inconclusive = 'out of time'
            break
        # further errors of one function are searched without a resource limit, which
        # may not end: what was reported until then counts, the rest is run again
        rc, res, diags, o, e = run_verus(f, max(left * 0.5, 60), rlimit)
        if rc is None:
            early = [dg for dg in diags if not re.search(r'rlimit|resource limit', dg.get('message', ''), re.I)]
            log('unit %s: the search for further errors does not end; once more without' % unit)
            rc, res, diags, o, e = run_verus(f, max(deadline - time.time(), 60), rlimit, multiple=1)
            seen = [(diag_line(dg), dg.get('message')) for dg in diags]
            diags += [dg for dg in early if (diag_line(dg), dg.get('message')) not in seen]
        if rc is None:
            r.inconclusive = 'verus timed out'
            break
        vr = (res or {}).get('verification-results') or {}
        compiled = bool(res) and not vr.get('encountered-vir-error') and 'verified' in vr and 'times-ms' in res \
            and (vr.get('verified', 0) + vr.get('errors', 0)) > 0
        if not compiled:
            new = {}
            for dg in diags:
                ln = None
                for s in dg.get('spans', []):
                    while s:  # a span inside a macro belongs to the place that calls the macro
                        fn = fn_at(m, s['line_start']) if s.get('file_name', f).endswith(os.path.basename(f)) else None
                        if fn and (ln is None or s.get('is_primary')):
                            ln = fn
                        s = (s.get('expansion') or {}).get('span')
                if ln is not None and ln['id'] not in r.stubbed and not ln.get('trait_decl'):
                    new[ln['id']] = dg.get('message', '')[:300]
            if not new:
                msg = '; '.join(dg.get('message', '')[:200] for dg in diags[:4]) or (e or o)[-400:]
                r.inconclusive = 'verifier rejects the extracted text: ' + msg
                break
            log('unit %s: outside the verifier\'s reach: %s' % (unit, new))
            r.stubbed.update(new)
            continue
        r.verified, r.errors = vr.get('verified', 0), vr.get('errors', 0)
        for mod in res['times-ms'].get('smt', {}).get('smt-run-module-times', []):
            r.break_down += mod.get('function-breakdown', [])
        text = open(f).read().split('\n')
        for dg in diags:
            ln, pl = diag_line(dg)
            fn = fn_at(m, ln) if ln else None
            r.failures.append({
                'fn': fn['id'] if fn else None,
                'message': dg.get('message', ''),
                'line': ln,
                'text': text[ln - 1].strip() if ln else '',
                'clause': text[pl - 1].strip() if pl else '',
                'rlimit': bool(re.search(r'rlimit|resource limit|timed? ?out', dg.get('message', ''), re.I)),
                'rendered': dg.get('rendered', '')[:1500],
            })
        r.ok = (r.errors == 0 and not r.failures and vr.get('success', False) and not r.stubbed)
        break
    r.wall = time.time() - t0
    return r


# ---------------------------------------------------------------- search

def search(vh, prop, budget, out, seed, tier, extra=()):
    """returns dict: status clean|found|crash|error, data"""
    if os.path.exists(out):
        os.remove(out)
    rc, o, e = sh([vh, prop, '--seed', str(seed), '--budget', str(budget), '--out', out, '--tier', tier, *extra],
                  timeout=budget + 240)
    data = None
    if os.path.exists(out):
        try:
            data = json.load(open(out))
        except ValueError:
            data = None
    if rc == 0 and data is not None:
        return {'status': 'clean', 'data': data}
    if rc == 1 and data is not None and data.get('violation'):
        return {'status': 'found', 'data': data}
    return {'status': 'crash', 'data': data, 'rc': rc, 'tail': (o[-1500:] + '\n' + e[-1500:])}


def crash_case(vh, prop, budget, out, seed, tier):
    """the harness died: find the case that kills it and confirm it alone"""
    import glob
    pre = os.path.join(B, 'trace')
    for p in glob.glob(pre + '.*'):
        os.remove(p)
    sh([vh, prop, '--seed', str(seed), '--budget', str(budget), '--out', out, '--tier', tier],
       timeout=budget + 240, env=dict(ENV, VH_TRACE=pre))
    for p in sorted(glob.glob(pre + '.*')):
        try:
            pi = open(p).read().split()[0]
        except (OSError, IndexError):
            continue
        rc, o, e = sh([vh, prop, '--seed', str(seed), '--budget', '5', '--out', out, '--tier', tier, '--only', pi], timeout=300)
        if rc not in (0, 1):
            return pi, rc, (o + e)[-2500:]
        if rc == 1:
            return pi, rc, (o + e)[-2500:]
    return None, None, ''


# ---------------------------------------------------------------- dictionary

CONSTS = {'MAX': {'u8': 0xff, 'i8': 0x7f, 'u16': 0xffff, 'i16': 0x7fff, 'u32': 0xffffffff, 'i32': 0x7fffffff, 'i64': 2**63 - 1, 'u64': 2**64 - 1, 'usize': 2**64 - 1},
          'BITS': {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32, 'u64': 64, 'i64': 64, 'usize': 64}}


def literals():
    """per file: the numbers the non-test source names, with their counts"""
    out = {}
    for d, _, fs in sorted(os.walk(os.path.join(REPO, 'src'))):
        for f in sorted(fs):
            if not f.endswith('.rs'):
                continue
            t = open(os.path.join(d, f), errors='replace').read().split('#[cfg(test)]')[0]
            t = re.sub(r'//[^\n]*', '', t)
            n = {}

            def add(v):
                if 0 <= v < 2**64:
                    n[str(v)] = n.get(str(v), 0) + 1

            def num(x):
                x = re.sub(r'(?:_*(?:[ui](?:8|16|32|64|128|size)|f32|f64))$', '', x).replace('_', '')
                try:
                    return int(x, 0) if not re.match(r'0\d', x) else int(x)
                except ValueError:
                    return None
            for m in re.finditer(r'(?<![\w.])\d\w*', t):
                v = num(m.group(0))
                if v is not None:
                    add(v)
            for m in re.finditer(r'(?<![\w.])(\d\w*)\s*<<\s*(\d\w*)', t):
                a, b = num(m.group(1)), num(m.group(2))
                if a is not None and b is not None and b < 64:
                    add(a << b)
            for m in re.finditer(r'>>\s*(\d\w*)', t):
                b = num(m.group(1))
                if b is not None and b < 64:
                    add(1 << b)
            for m in re.finditer(r"b'(\\?.)'", t):
                add(ord(m.group(1)[-1]))
            for m in re.finditer(r'\b([ui](?:8|16|32|64|size))::(MAX|BITS)\b', t):
                add(CONSTS[m.group(2)].get(m.group(1), 0))
            for m in re.finditer(r'\bas\s+([ui](?:8|16|32))\b', t):
                add(CONSTS['MAX'][m.group(1)])
            out[os.path.relpath(os.path.join(d, f), REPO)] = n
    return out


def dictionary():
    """numbers that the source names more often than on the unchanged tree"""
    p = os.path.join(V, 'baseline', 'literals.json')
    base = json.load(open(p)) if os.path.exists(p) else None
    if base is None:
        return []
    out = set()
    for f, n in literals().items():
        for v, c in n.items():
            if c > base.get(f, {}).get(v, 0) and int(v) > 1:
                out.add(int(v))
    return sorted(out)[:64]


# ---------------------------------------------------------------- anchors

def load_base(unit):
    p = os.path.join(V, 'baseline', unit + '.json')
    return json.load(open(p)) if os.path.exists(p) else None


def in_set(fid, pats):
    return any(re.search(p, fid) for p in pats)


def anchors_intact(unit, r, base, fid):
    """may a failed obligation of `fid` be read as a verdict on the code?  Only if the
    function still has the loop structure its invariants were written for, every spec
    of the function found its place, and it calls nothing new without a contract."""
    if base is None or r.map is None:
        return False, 'no baseline'
    b = base['fns'].get(fid)
    cur = next((f for f in r.map['fns'] if f['id'] == fid), None)
    if b is None or cur is None:
        return False, 'function is not one the contracts were written for'
    if b['shape'] != cur['shape']:
        return False, 'loop structure differs from the one its invariants describe'
    if any(fid in x for x in r.map['missing']) or any(fid in x for x in r.map['loops_without_spec']):
        return False, 'a proof anchor in the function is gone'
    if fid in r.stubbed:
        return False, 'function is outside the verifier\'s reach'
    new = [f['id'] for f in r.map['fns'] if f['id'] not in base['fns'] and not f['contract']]
    if new:
        # a helper without a contract hides its behaviour from its callers
        text = open(r.file).read().split('\n')
        body = '\n'.join(text[cur['out'][0] - 1:cur['out'][1]])
        for n in new:
            if re.search(r'\b' + re.escape(n.split('::')[-1]) + r'\b', body):
                return False, 'calls the new function %s, which has no contract' % n
    if r.stubbed:
        return False, 'another function of the unit is outside the verifier\'s reach'
    return True, ''


def renegotiated(r, base, fid):
    """A private function and its callers may have agreed on something else: `fid` is
    private and fails its contract, but a function that calls it was changed as well; or
    `fid` uses a private function that was changed and fails its own contract.  The
    contract between them is then no longer the one written down."""
    if base is None or r.map is None:
        return False
    fns = {f['id']: f for f in r.map['fns']}
    text = open(r.file).read().split('\n')
    body = lambda f: '\n'.join(text[fns[f]['out'][0] - 1:fns[f]['out'][1]])
    changed = lambda f: base['fns'].get(f, {}).get('toks') != fns[f]['toks']
    calls = lambda f, g: re.search(r'\b' + re.escape(g.split('::')[-1]) + r'\s*(::<[^>]*>)?\(', body(f))
    private = lambda f: not fns[f]['public']
    if fid not in fns:
        return False
    if private(fid) and changed(fid) and any(f != fid and changed(f) and calls(f, fid) for f in fns):
        return True
    bad = {x['fn'] for x in r.failures if x['fn'] in fns}
    return changed(fid) and any(g != fid and private(g) and changed(g) and calls(fid, g) for g in bad)


def gather(P, results):
    """failed obligations that are a verdict on the code, and what stays undecided"""
    failed, undecided = [], []
    for u, r in results.items():
        base = load_base(u)
        if r.inconclusive:
            undecided.append('%s: %s' % (u, r.inconclusive))
            continue
        for s, why in r.stubbed.items():
            if in_set(s, P['fns']):
                undecided.append('%s: %s' % (s, why))
        if base and r.map:
            cur = {f['id'] for f in r.map['fns'] if f['contract']}
            for fid, b in base['fns'].items():
                if b['contract'] and fid not in cur and in_set(fid, P['fns']):
                    undecided.append('%s: function under contract is gone' % fid)
        if base and r.map:
            undecided += [x for x in r.map['missing'] if 'overrides what' in x]
            # code that runs without being called by name (Iterator::fold, Drop, Deref, ...)
            for f in r.map['fns']:
                if '@' in f['id'] and f['id'] not in base['fns'] and not f['contract']:
                    undecided.append('%s: a trait method the contracts do not know' % f['id'])
        for x in r.failures:
            if x['fn'] is None:
                undecided.append('%s: lemma at line %s: %s' % (u, x['line'], x['message']))
                continue
            if not in_set(x['fn'], P['fns']):
                if in_set(x['fn'], P.get('cone', ['.'])):
                    undecided.append('%s (callee contract): %s' % (x['fn'], x['message']))
                continue
            ok, why = anchors_intact(u, r, base, x['fn'])
            if x['rlimit']:
                ok, why = False, 'resource limit'
            if ok and renegotiated(r, base, x['fn']):
                ok, why = False, 'a private function and its caller both changed'
            cl = P.get('clauses')
            if isinstance(cl, dict):
                cl = next((c for k, c in cl.items() if re.search(k, x['fn'])), None)
            if ok and cl and not re.search(cl, x['clause'] + ' ' + x['text'] + ' ' + x['message']):
                ok, why = False, 'another clause'
            (failed if ok else undecided).append(dict(x, unit=u) if ok else '%s: %s (%s)' % (x['fn'], x['message'], why))
    return failed, undecided


# ---------------------------------------------------------------- evidence

def scan_trust(f):
    out = []
    if not f or not os.path.exists(f):
        return out
    t = open(f).read()
    deps = open(os.path.join(V, 'specs', 'vx_deps.rs')).read().strip()
    code = t.replace(deps, '')
    for m in re.finditer(r'assume_specification\s*(?:<[^\[]*>)?\s*\[', t):
        i, d = m.end(), 1
        while d:
            d += {'[': 1, ']': -1}.get(t[i], 0)
            i += 1
        x = ' '.join(t[m.end():i - 1].split())
        last = re.findall(r'\w+', x)[-1] if not re.match(r'<.* as ', x) else ''
        # contracts of std functions that the source does not call are idle
        if not last or re.search(r'[.:]\s*%s\s*(::<[^>]*>\s*)?\(' % last, code):
            out.append('assumed contract (std): ' + x)
    for m in re.finditer(r'(?:external_body|external_type_specification|external_trait_specification)\)?\]\s*(?:#\[[^\n]*\]\s*)*((?:pub(?:\([a-z]+\))? )?(?:broadcast |proof |exec |open |closed )*(?:fn|struct|trait|enum|impl)[^\n{;]*)', t):
        out.append('trusted (external body): ' + ' '.join(m.group(1).split())[:140])
    for m in re.finditer(r'(?:broadcast )?axiom fn (\w+)', t):
        out.append('axiom: ' + m.group(1))
    for m in re.finditer(r'uninterp spec fn (\w+)', t):
        out.append('uninterpreted: ' + m.group(1))
    for m in re.finditer(r'\b(admit|assume)\s*\(', t):
        out.append('ASSUME in proof text: line %d' % (t[:m.start()].count('\n') + 1))
    return sorted(set(out))


def known_findings(prop):
    p = os.path.join(V, 'KNOWN_FINDINGS.txt')
    res = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'known: property=(\S+) case=(\S+) (.*)', l)
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


# ---------------------------------------------------------------- main

def main(prop):
    P = PROPS[prop]
    thorough = TIER == 'thorough'
    os.makedirs(B, exist_ok=True)
    os.makedirs(V + '/evidence', exist_ok=True)
    os.makedirs(B + '/replay', exist_ok=True)
    replay = os.path.join(B, 'replay', prop + '.json')
    vh_out = os.path.join(B, prop + '.search.json')
    words = dictionary()
    if words:
        ENV['VH_DICT'] = ','.join(map(str, words))
        log('numbers new in the source, used as inputs too:', ENV['VH_DICT'])

    box = {}
    th = threading.Thread(target=lambda: box.update(h=build_harness()))
    th.start()
    vx, vxerr = build_vx()
    th.join()
    vh, vherr = box['h']
    if vx is None:
        log('extractor does not build:', vxerr[-800:])
    if vh is None:
        log('harness does not build against the current tree:', vherr[-1500:])
    log('built')

    budget = 400 if thorough else 30
    results, th2 = {}, None
    sbox = {}
    if vh:
        th2 = threading.Thread(target=lambda: sbox.update(r=search(vh, prop, budget, vh_out, SEED, TIER)))
        th2.start()
    if vx:
        for u in P['units']:
            results[u] = prove(vx, u, timeout=(700 if thorough else 420), rlimit=(120 if thorough else 60))
            r = results[u]
            log('unit %s: %s, %d queries verified, %d errors, %d stubbed, %.1fs' % (
                u, 'inconclusive: ' + r.inconclusive if r.inconclusive else ('all discharged' if r.ok else 'NOT all discharged'),
                r.verified, r.errors, len(r.stubbed), r.wall))
            for x in r.failures:
                log('   failed obligation: %s: %s | %s | %s' % (x['fn'], x['message'], x['text'], x['clause']))
        if thorough:
            for u in P['units']:
                if results[u].ok and not UNITS[u].get('nocanary'):
                    results[u].canary = canary(vx, u)
                    log('unit %s: reachability canaries: %s' % (u, results[u].canary))
    if th2:
        th2.join()

    failed, undecided = gather(P, results)
    n_native = sbox.get('r')

    # ---- search for a failing input
    verdict = None
    findings = known_findings(prop)
    if n_native and n_native['status'] == 'crash':
        pi, rc, tail = crash_case(vh, prop, budget, vh_out, SEED, TIER)
        if pi is not None:
            verdict = {'kind': 'native', 'phase_idx': pi, 'detail': 'process ended with status %s\n%s' % (rc, tail)}
        else:
            log('harness ended abnormally (%s) and the case could not be isolated:\n%s' % (n_native.get('rc'), n_native['tail'][-1500:]))
    if n_native and n_native['status'] == 'found':
        v = n_native['data']['violation']
        verdict = {'kind': 'native', 'phase_idx': '%s/%s' % (v['phase'], v['idx']), 'case': v['case'], 'detail': v['detail']}
    if verdict is None and failed and vh and (n_native or {}).get('status') == 'clean':
        left = 840 - (time.time() - T0) if not thorough else 1500
        b2 = int(max(20, min(180 if not thorough else 1200, left - 120)))
        log('%d obligation(s) failed, searching %d s for a failing input' % (len(failed), b2))
        s2 = search(vh, prop, b2, vh_out + '.2', SEED + 1000003, 'thorough')
        if s2['status'] == 'found':
            v = s2['data']['violation']
            verdict = {'kind': 'native', 'phase_idx': '%s/%s' % (v['phase'], v['idx']), 'case': v['case'], 'detail': v['detail'], 'seed': SEED + 1000003, 'tier': 'thorough'}
    if verdict is None and not failed and undecided and vh and (n_native or {}).get('status') == 'clean' and not thorough:
        b2 = int(max(20, min(90, 700 - (time.time() - T0))))
        log('undecided by proof, searching %d s more' % b2)
        s2 = search(vh, prop, b2, vh_out + '.2', SEED + 1000003, 'thorough')
        if s2['status'] == 'found':
            v = s2['data']['violation']
            verdict = {'kind': 'native', 'phase_idx': '%s/%s' % (v['phase'], v['idx']), 'case': v['case'], 'detail': v['detail'], 'seed': SEED + 1000003, 'tier': 'thorough'}
    if verdict is None and failed:
        verdict = {'kind': 'proof'}
    if verdict and verdict['kind'] == 'native':
        for pi, what in findings:
            if verdict['phase_idx'] == pi:
                print('KNOWN-FINDING: property=%s %s' % (prop, what))
                verdict = None
                break

    # ---- evidence
    cov = {}
    trusted = []
    under = []
    nd = nob = 0
    smt_us = 0
    for u, r in results.items():
        own = [f for f in (r.map or {'fns': []})['fns'] if in_set(f['id'], P['fns'] + P.get('cone', ['.']))]
        under += [f['id'] for f in own if (f['contract'] or '@' in f['id']) and not f['external']]
        trusted += ['[%s] function left unverified: %s' % (u, f['id']) for f in own if f['external']]
        trusted += ['[%s] %s' % (u, t) for t in scan_trust(r.file)]
        nob += r.verified + r.errors
        nd += r.verified
        smt_us += sum(b.get('time-micros', 0) for b in r.break_down)
    s = (n_native or {}).get('data') or {}
    rc, vv, _ = sh(['verus', '--version'], timeout=60)
    cov.update({
        'obligations': nob,
        'discharged': nd,
        'obligation_unit': 'one Verus query (function body, loop, lemma or by-clause) over the text extracted in this run',
        'checker_cmd': 'vx --modules %s ... && verus UNIT.rs --rlimit N (units: %s)' % ('|'.join(','.join(UNITS[u]['modules']) for u in P['units']), ','.join(P['units'])),
        'backend': 'Verus (%s) with its bundled Z3' % ' '.join(vv.split())[:160],
        'trusted_base': sorted(set(trusted)) or ['none'],
        'functions_under_contract': sorted(set(under)),
        'functions_under_contract_count': len(set(under)),
        'solver_time_s': round(smt_us / 1e6, 2),
        'proof_wall_s': round(sum(r.wall for r in results.values()), 2),
        'proof_complete': bool(results) and all(r.ok for r in results.values()),
        'not_proved': P.get('not_proved', []),
        'undecided': undecided[:40],
        'failed_obligations': [{k: x[k] for k in ('unit', 'fn', 'message', 'text', 'clause')} for x in failed],
        'extraction_rewrites': {u: len((r.map or {}).get('rewrites', [])) for u, r in results.items()},
        'evaluations': s.get('evaluations', 0),
        'distinct_nontrivial': s.get('distinct', 0),
        'rule': P['rule'],
        'samples': (s.get('samples') or ['no native search in this run'])[:6],
        'native_phases': s.get('phases', []),
        'bounded': 'native search only: sampled inputs, not counted as proved',
    })
    if any(r.canary for r in results.values()):
        cov['reachability_canaries'] = {u: r.canary for u, r in results.items() if r.canary}
    ev = {
        'property': prop, 'tier': TIER, 'seed': SEED, 'level': P['level'], 'coverage': cov,
        'assumptions': P['assumptions'], 'wall_s': round(time.time() - T0, 2), 'violations': 1 if verdict else 0,
    }
    json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)

    if verdict:
        rec = {'property': prop, 'verdict': verdict, 'failed_obligations': failed, 'undecided': undecided,
               'seed': verdict.get('seed', SEED), 'tier': verdict.get('tier', TIER)}
        if verdict['kind'] == 'native':
            rec['replay_cmd'] = ('cd %s && CARGO_TARGET_DIR=%s/harness cargo build --offline --manifest-path harness/Cargo.toml && '
                                 '%s%s/harness/debug/vh %s --seed %d --tier %s --budget 5 --only %s --out /dev/null'
                                 % (V, B, 'VH_DICT=%s ' % ENV['VH_DICT'] if words else '', B, prop, rec['seed'], rec['tier'], verdict['phase_idx']))
            log('failing input (%s): %s\n%s' % (verdict['phase_idx'], verdict.get('case', ''), verdict.get('detail', '')))
        json.dump(rec, open(replay, 'w'), indent=1)
        tail = '' if verdict['kind'] == 'native' else ' no-failing-input-found'
        print('VIOLATION property=%s replay=%s%s' % (prop, replay, tail), flush=True)
        return 1
    for x in undecided[:12]:
        log('undecided by proof:', x)
    native_ok = bool(n_native) and n_native['status'] == 'clean'
    if not native_ok and not (results and all(r.ok for r in results.values())):
        log('no answer: neither the proof nor the search could run on this tree')
        return 2
    log('property %s held (%s)' % (prop, 'all obligations discharged' if cov['proof_complete'] else 'on everything explored; proof incomplete'))
    return 0


def canary(vx, unit):
    """every contracted function gets `assert(false)` at its start; each must fail
    (its precondition and the axioms in scope are then satisfiable at that point)"""
    r = prove(vx, unit, timeout=600, rlimit=30, canary=True)
    if r.inconclusive:
        return {'status': 'inconclusive', 'why': r.inconclusive}
    want = {f['id'] for f in r.map['fns'] if f.get('canary')}
    got = {x['fn'] for x in r.failures if x['fn']}
    return {'functions': len(want), 'reachable': len(want & got), 'unreachable': sorted(want - got)}


def baseline():
    vx, err = build_vx()
    assert vx, err
    os.makedirs(V + '/baseline', exist_ok=True)
    json.dump(literals(), open(os.path.join(V, 'baseline', 'literals.json'), 'w'), indent=0, sort_keys=True)
    for u in UNITS:
        for ext in ('.json', '.tsv'):
            p = os.path.join(V, 'baseline', u + ext)
            if os.path.exists(p):
                os.remove(p)
        r = prove(vx, u, 900, 120)
        log(u, 'ok' if r.ok else 'NOT OK', r.verified, r.errors, r.inconclusive, round(r.wall, 1))
        for x in r.failures:
            log('  ', x['fn'], x['message'], x['text'])
        if r.map is None:
            continue
        if r.map['missing'] or r.map['loops_without_spec']:
            log('   anchors missing:', r.map['missing'], r.map['loops_without_spec'])
        base = {'verified': r.verified,
                'fns': {f['id']: {'shape': f['shape'], 'contract': f['contract'], 'external': f['external'], 'toks': f['toks']} for f in r.map['fns']}}
        json.dump(base, open(os.path.join(V, 'baseline', u + '.json'), 'w'), indent=0, sort_keys=True)
        with open(os.path.join(V, 'baseline', u + '.tsv'), 'w') as fh:
            for f in r.map['fns']:
                fh.write('\t'.join([f['id']] + f['names']) + '\n')


if __name__ == '__main__':
    a = sys.argv[1:]
    if a and a[0] == '--baseline':
        baseline()
        sys.exit(0)
    if a and a[0] == '--build':
        x, e1 = build_vx()
        y, e2 = build_harness()
        print(x, e1, y, e2)
        sys.exit(0 if x and y else 1)
    if '--tier' in a:
        TIER = a[a.index('--tier') + 1]
    sys.exit(main(a[0]))
