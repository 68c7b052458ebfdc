"""Runs Verus on the units generated from /repo's current source."""
import json, os, re, subprocess, time, glob, hashlib
from concurrent.futures import ThreadPoolExecutor
from . import extract

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
WORK = os.path.join(VERIF, 'target', 'verus')

PROOF_ERRORS = ('postcondition not satisfied', 'precondition not satisfied', 'assertion failed', 'invariant not satisfied',
                'possible arithmetic underflow/overflow', 'decreases not satisfied', 'unable to prove', 'index', 'recommendation not met',
                'possible division by zero', 'failed this', 'possible bit shift', 'cannot prove', 'loop invariant', 'could not prove termination', 'bit shift')

def units(prop=None):
    out = []
    for f in sorted(glob.glob(os.path.join(VERIF, 'contracts', '*.rs'))):
        m = re.search(r'^//@@ props (.*)$', open(f).read(), re.M)
        if m and (prop is None or prop in m.group(1).split()): out.append(os.path.basename(f)[:-3])
    return out

def scan_assumptions(text, fns):
    """Every trusted declaration of the generated file."""
    out = []
    for m in re.finditer(r'assume_specification\s*(?:<[^\[]*>)?\s*\[\s*(.*?)\s*\]', text): out.append(f'assumed contract of {m.group(1)}')
    for m in re.finditer(r'#\[verifier::(external_body|external_type_specification|external|external_trait_specification)\]((?:\s*#\[[^\]]*\])*)\s*((?:pub\s+)?(?:\w+\s+)*?(?:fn|struct|trait|enum)\s+\w+)', text):
        if 'vac__' not in m.group(3): out.append(f'{m.group(1)}: {" ".join(m.group(3).split())}')
    for m in re.finditer(r'\b(?:broadcast\s+)?axiom\s+fn\s+(\w+)', text): out.append(f'axiom {m.group(1)}')
    for w in (r'\bassume\s*\(', r'\badmit\s*\('):
        n = len(re.findall(w, text))
        if n: out.append(f'{w[2:-4]} used {n} times')
    return out

def run_verus(path, extra=(), timeout=240):
    t = time.time()
    cmd = ['verus', '--output-json', '--time-expanded', '--multiple-errors', '20', '--num-threads', '2', *extra, path, '--', '--error-format=json']
    env = dict(os.environ)
    env.pop('RUSTUP_TOOLCHAIN', None)
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=WORK, env=env)
    except subprocess.TimeoutExpired:
        return dict(timeout=True, wall=time.time() - t, errors=[], out=None, cmd=' '.join(cmd))
    try: o = json.loads(p.stdout)
    except ValueError: o = None
    errs = []
    for l in p.stderr.split('\n'):
        if l.startswith('{'):
            try: d = json.loads(l)
            except ValueError: continue
            if d.get('level') == 'error' and not d['message'].startswith('aborting due to'):
                errs.append(d)
    return dict(timeout=False, wall=time.time() - t, errors=errs, out=o, cmd=' '.join(cmd), stderr=p.stderr if o is None else '')

def fn_at(fns, text_lines, line):
    for f in fns:
        if f['out_lines'][0] <= line <= f['out_lines'][1]: return f
    return None

def recorded():
    try: return json.load(open(os.path.join(VERIF, 'contracts', 'shapes.json')))
    except OSError: return {}

def check_unit(name, vacuity=True):
    """status: proved | failed | open (the proof could not be re-established), with the reason."""
    tpl = os.path.join(VERIF, 'contracts', name + '.rs')
    r = dict(unit=name, status='open', reason='', fns=[], verified=0, errors=0, failed=[], assumptions=[], smt_ms=0, wall=0.0, probes=0, probes_reached=0, cmd='')
    t0 = time.time()
    try:
        meta, text, fns, _ = extract.generate(tpl, REPO)
        _, vtext, _, probes = extract.generate(tpl, REPO, vac=True)
    except extract.Lost as e:
        r['reason'] = f'anchor lost: {e}'
        return r
    except (IndexError, RecursionError, KeyError) as e:
        r['reason'] = f'the source could not be read: {e!r}'
        return r
    os.makedirs(WORK, exist_ok=True)
    path, vpath = os.path.join(WORK, name + '.rs'), os.path.join(WORK, name + '_reach.rs')
    open(path, 'w').write(text); open(vpath, 'w').write(vtext)
    r['fns'] = fns
    r['assumptions'] = scan_assumptions(text, fns)
    extra = meta.get('flags', [''])[0].split()
    with ThreadPoolExecutor(2) as ex:
        a = ex.submit(run_verus, path, extra)
        b = ex.submit(run_verus, vpath, extra) if vacuity else None
        v = a.result()
        w = b.result() if b else None
    r['cmd'] = v['cmd']
    r['wall'] = time.time() - t0
    if v['timeout']:
        r['reason'] = 'the verifier did not finish in time'
        return r
    res = (v['out'] or {}).get('verification-results') or {}
    rustc = v['errors'] and res.get('errors') == 0  # the compiler rejects the text before anything is verified
    if not v['out'] or res.get('encountered-vir-error') or 'verified' not in res or rustc or any(e.get('code') for e in v['errors']):
        r['reason'] = 'outside the verifier: ' + '; '.join(e['message'] for e in v['errors'][:3])[:600]
        r['detail'] = '\n'.join(e.get('rendered') or '' for e in v['errors'][:3])
        return r
    r['verified'], r['errors'] = res['verified'], res['errors']
    r['smt_ms'] = v['out']['times-ms'].get('smt', {}).get('total', 0)
    if res.get('success') and res['errors'] == 0:
        if res['verified'] == 0:
            r['reason'] = 'no obligations were generated'
            return r
        if w is not None:
            reached = 0
            if w['timeout'] or not w['out']:
                r['reason'] = 'the reachability probes did not finish'
                return r
            src = vtext.split('\n')
            lines = set()
            for e in w['errors']:
                for sp in e['spans']:
                    if '/*probe*/' in src[sp['line_start'] - 1] and e['message'] == 'assertion failed': lines.add(sp['line_start'])
            r['probes'], r['probes_reached'] = probes, len(lines)
            if len(lines) < probes:
                missing = [i + 1 for i, l in enumerate(src) if '/*probe*/' in l and i + 1 not in lines]
                r['reason'] = f'{probes - len(lines)} reachability probes are unreachable: the contract may be vacuous (lines {missing[:5]} of {vpath})'
                return r
        r['status'] = 'proved'
        return r
    # failed obligations: is it the code, or the proof that no longer fits?
    shapes = recorded().get(name, {})
    genuine, other = [], []
    for e in v['errors']:
        sp = [s for s in e['spans'] if s['is_primary']] or e['spans']
        f = None
        for s in e['spans']:
            f = fn_at(fns, None, s['line_start']) or f
        if e['message'].startswith('rlimit') or 'resource limit' in e['message'].lower() or 'rlimit' in e['message']:
            other.append((f, e)); continue
        genuine.append((f, e))
    bad = {f['path'] for f, e in genuine + other if f}
    rl = [e for f, e in other]
    moved = [f['path'] for f in fns if f['path'] in bad and shapes.get(f['path'], {}).get('shape', f['shape']) != f['shape']]
    r['failed'] = [dict(function=f['path'] if f else '(specification)', src=f['src'] if f else '', what=e['message'], rendered=(e.get('rendered') or '')[:2500]) for f, e in genuine]
    if not genuine:
        r['reason'] = 'resource limit: ' + '; '.join(e['message'] for e in rl)[:300]
    elif moved:
        r['reason'] = 'the loops of ' + ', '.join(moved) + ' changed shape, so the loop invariants do not apply'
    elif all(f is None for f, e in genuine):
        r['reason'] = 'a lemma of the specification fails (solver): ' + genuine[0][1]['message']
    elif all(shapes.get(f['path'], {}).get('digest') == f['digest'] for f, e in genuine if f) and shapes:
        r['reason'] = 'an unchanged function fails (solver instability)'
    else:
        r['status'] = 'failed'
        r['reason'] = '; '.join(f"{x['function']}: {x['what']}" for x in r['failed'][:4])
    return r

def check(names):
    with ThreadPoolExecutor(4) as ex:
        return list(ex.map(check_unit, names))

def record():
    """Writes contracts/shapes.json from the current source (run by hand when contracts change)."""
    out = {}
    for n in units():
        _, _, fns, _ = extract.generate(os.path.join(VERIF, 'contracts', n + '.rs'), REPO)
        out[n] = {f['path']: dict(shape=f['shape'], digest=f['digest']) for f in fns}
    json.dump(out, open(os.path.join(VERIF, 'contracts', 'shapes.json'), 'w'), indent=1, sort_keys=True)
