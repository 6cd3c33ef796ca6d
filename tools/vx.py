#!/usr/bin/env python3
"""Checks one property of /repo: proves the contracts of the functions it rests on, and runs the real code.

  vx.py setup                 builds the tools
  vx.py check ID [quick|thorough]
  vx.py proof LAYER [verifier arguments]   only the proof, with every message (for development)
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
TARGET = f'{ROOT}/target'
BUILD = f'{ROOT}/build'
TOOLCHAIN = 'nightly-2023-10-11'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)

LEMMAS = 'lemmas lemmas_order lemmas_limit lemmas_code lemmas_writer lemmas_norm map_access'.split()
# What is verified together: the untyped layer alone, or with the typed layer on top.
SPECS = [('spec', ['head', 'view', 'model'])] + [(m, [m]) for m in LEMMAS] + [('stdspec', ['stdspec']), ('theorems', ['theorems'])]
TYPED = [('typed', ['typed', 'typed_gen']), ('typed_lemmas', ['typed_lemmas']), ('typed_theorems', ['typed_theorems', 'typed_theorems_gen']), ('typed_props', ['typed_props', 'typed_props_gen'])]
DERIVED = [('derived', ['derived']), ('derived_gen', ['derived_gen'])]
SERDE = [('sd', ['sd']), ('sd_props', ['sd_props'])]
LAYERS = {
    'value': (['oasis_cbor_value'], SPECS, ['macros', 'reader', 'value', 'writer']),
    'typed': (['oasis_cbor_value', 'oasis_cbor'], SPECS + TYPED, ['macros', 'reader', 'value', 'writer', 'root', 'decode', 'encode', 'typed_gen', 'noserde']),
    'catalogue': (['oasis_cbor_value', 'oasis_cbor', 'vx_catalogue'], SPECS + TYPED + DERIVED, ['macros', 'reader', 'value', 'writer', 'root', 'decode', 'encode', 'typed_gen', 'noserde', 'catalogue', 'derived_gen']),
    'serde': (['oasis_cbor_value', 'oasis_cbor'], SPECS + TYPED + SERDE, ['macros', 'reader', 'value', 'writer', 'root', 'decode', 'encode', 'typed_gen', 'serde']),
}


def layer(prop):
    return 'value' if prop in ('C01', 'C02', 'C03', 'C04', 'C05', 'C08') else 'catalogue' if prop in ('C12', 'C13', 'C14', 'C15') else 'serde' if prop in ('C16', 'C17') else 'typed'


PACKAGE = {'oasis_cbor_value': 'oasis-cbor-value', 'oasis_cbor': 'oasis-cbor', 'vx_catalogue': 'vx-catalogue'}

# Messages of obligations that the solver did not accept; any other error is one of translation.
REFUTED = ('postcondition not satisfied', 'precondition not satisfied', 'assertion failed', 'invariant not satisfied', 'possible arithmetic',
           'possible division', 'possible bit shift', 'decreases not satisfied', 'could not prove termination', 'requires not satisfied', 'unable to prove',
           'cannot prove', 'might not', 'failed')
GAVE_UP = ('rlimit', 'Resource limit', 'timed out', 'solver')


def log(*a):
    print('[vx]', *a, file=sys.stderr, flush=True)


def env(tool=None):
    e = dict(os.environ)
    for k in ('RUSTUP_TOOLCHAIN', 'RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER', 'CARGO_BUILD_TARGET'):
        e.pop(k, None)
    e.update(CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0')
    if tool:
        e['RUSTUP_TOOLCHAIN'] = tool
    return e


def run(cmd, cwd=None, e=None, timeout=800):
    return subprocess.run(cmd, cwd=cwd, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)


def tree_hash():
    h = hashlib.sha256()
    fs = [f for d in ('src', 'value/src', 'derive/src') for f in glob.glob(f'{REPO}/{d}/**/*', recursive=True)]
    fs += [f'{REPO}/{d}Cargo.toml' for d in ('', 'value/', 'derive/')]
    fs += [f for f in glob.glob(f'{ROOT}/harness/**/*', recursive=True)]
    for f in sorted(set(fs)):
        if os.path.isfile(f):
            h.update(f.encode() + b'\0' + open(f, 'rb').read() + b'\0')
    return h.hexdigest()


class Failed(Exception):
    pass


class Stopped(Failed):
    pass


# When the verifier has to be done.
DEADLINE = [time.time() + 3600]


def build_extractor():
    e = env('stable')
    e['CARGO_TARGET_DIR'] = f'{TARGET}/extract'
    r = run(['cargo', 'build', '--offline', '--quiet'], f'{ROOT}/extract', e)
    if r.returncode:
        raise Failed('the extractor does not build: ' + r.stderr[-2000:])


def hcargo(*a):
    e = env(TOOLCHAIN)
    e['CARGO_TARGET_DIR'] = f'{TARGET}/harness'
    return run(['cargo', *a], f'{ROOT}/harness', e)


def fresh():
    """Nothing built from an earlier state of /repo may be taken for current."""
    s = f'{TARGET}/harness/vx-stamp'
    h = tree_hash()
    if os.path.exists(s) and open(s).read() == h:
        return
    if os.path.isdir(f'{TARGET}/harness'):
        hcargo('clean', '--offline', '-p', 'oasis-cbor', '-p', 'oasis-cbor-value', '-p', 'oasis-cbor-derive', '-p', 'vx-bridge', '-p', 'vx-catalogue', '-p', 'vx-random')
    os.makedirs(f'{TARGET}/harness', exist_ok=True)
    open(s, 'w').write(h)


def build_bridge():
    r = hcargo('build', '--offline', '--quiet')
    if r.returncode:
        raise Failed('the bridge does not build against /repo: ' + r.stderr[-3000:])


def expand(crate, work):
    nonce = f'{os.getpid()}{time.time_ns()}'
    r = hcargo('rustc', '--offline', '--quiet', '-p', PACKAGE[crate], '--lib', '--profile=check', '--', '-Zunpretty=expanded', '--cfg', f'vx_nonce="{nonce}"')
    if r.returncode or not r.stdout.strip():
        raise Failed(f'{crate} does not expand: ' + r.stderr[-2000:])
    p = f'{work}/{crate}.expanded.rs'
    open(p, 'w').write(r.stdout)
    return p


# ---------------------------------------------------------------- proof

def extract(work, lay, expanded, degrade=(), vacuity=False):
    crates, specs, cts = LAYERS[lay]
    out, m = f'{work}/verified.rs', f'{work}/map.json'
    cmd = [f'{TARGET}/extract/debug/vx-extract', '--out', out, '--map', m, '--prelude', f'{ROOT}/spec/prelude.rs']
    for n, fs in specs:
        cmd += ['--spec', f'{n}=' + ','.join(f'{ROOT}/spec/{f}.rs' for f in fs)]
    for c in crates:
        cmd += ['--crate', f'{c}={expanded[c]}']
    for c in cts:
        cmd += ['--contracts', f'{ROOT}/contracts/{c}.ct']
    for d in degrade:
        cmd += ['--degrade', d]
    if vacuity:
        cmd += ['--vacuity', '1']
    r = run(cmd)
    if r.returncode:
        raise Failed('extraction failed: ' + r.stderr[-2000:])
    return out, json.load(open(m))


def verus(path, extra=()):
    cmd = ['verus', path, '--output-json', '--time-expanded', '--multiple-errors', '3', '--error-format=json', '--triggers-mode', 'silent', *extra]
    t = time.time()
    with open(path + '.out', 'w+') as fo, open(path + '.err', 'w+') as fe:
        pr = subprocess.Popen(cmd, cwd=os.path.dirname(path), env=env(), stdout=fo, stderr=fe, start_new_session=True)
        while pr.poll() is None:
            if time.time() > DEADLINE[0]:
                os.killpg(pr.pid, signal.SIGKILL)
                pr.wait()
                raise Stopped(f'the verifier was stopped after {time.time() - t:.0f} s')
            time.sleep(0.2)
        fo.seek(0)
        fe.seek(0)
        stdout, stderr = fo.read(), fe.read()
    diags = []
    for l in stderr.splitlines():
        if l.startswith('{'):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get('level') == 'error' and not d['message'].startswith('aborting'):
                diags.append(d)
    try:
        res = json.loads(stdout)
    except ValueError:
        res = {}
    return {'cmd': ' '.join(cmd), 'diags': diags, 'res': res, 'wall': time.time() - t, 'rc': pr.returncode, 'err': stderr}


class Where:
    """Which function, lemma or theorem a line of the generated file belongs to."""

    def __init__(self, path, m):
        self.lines = open(path).read().split('\n')
        self.fns = sorted((f for f in m['functions']), key=lambda f: f['from'])
        self.specs = m['specs']

    def fn(self, line):
        for f in self.fns:
            if f['from'] <= line <= f['to']:
                return f
        return None

    def spec(self, line):
        for n, a, b in self.specs:
            if a <= line <= b:
                for i in range(line - 1, a - 1, -1):
                    g = re.match(r'\s*(?:pub |broadcast |open |closed |uninterp )*(?:proof |spec |exec |axiom )?fn (\w+)', self.lines[i])
                    if g:
                        return f'{n}::{g.group(1)}'
                return n
        return None

    def of(self, d):
        """The place whose obligation failed."""
        sp = d.get('spans') or []
        pri = [s for s in sp if s.get('is_primary')]
        ends = [s for s in sp if re.search(r'end of the function body|at this exit|this (loop|call)|at this', s.get('label') or '')]
        for s in ends + pri + sp:
            f = self.fn(s['line_start'])
            if f:
                return f['key'], f
        for s in pri + sp:
            n = self.spec(s['line_start'])
            if n:
                return n, None
        return None, None


def kind(msg):
    if any(x in msg for x in GAVE_UP):
        return 'gaveup'
    return 'refuted' if any(x in msg for x in REFUTED) else 'translation'


def short_name(key):
    return re.sub(r'.*::', '', key)


class Proof:
    def __init__(self):
        self.ok = False
        self.failures = []      # (key, props or None for all, message, text)
        self.bounded = {}       # key -> reason
        self.map = {}
        self.stats = {}
        self.note = ''
        self.cmd = ''
        self.text = ''


def prove(work, lay, expanded, extra=()):
    p = Proof()
    degrade = {}
    gaveup = {}
    for round_ in range(6):
        out, m = extract(work, lay, expanded, degrade)
        w = Where(out, m)
        try:
            v = verus(out, extra)
        except Stopped:
            if not gaveup:
                raise
            # The solver gave up on some functions, and could not do them with more time either.
            v, extra = last
            degrade.update(gaveup)
        last = v, extra
        p.map, p.cmd = m, v['cmd']
        res = v['res'].get('verification-results', {})
        log(f'verus round {round_}: {res.get("verified")} verified, {res.get("errors")} errors, {len(v["diags"])} messages, {v["wall"]:.1f} s')
        uncontracted = {short_name(f['key']) for f in m['functions'] if not f['contract']} - {short_name(f['key']) for f in m['functions'] if f['contract']}
        more, fails, lost, gave = {}, [], [], {}
        for d in v['diags']:
            key, f = w.of(d)
            k = kind(d['message'])
            if k == 'refuted' and (d.get('code') or not res):
                k = 'translation'
            text = d.get('rendered') or d['message']
            if f is None:
                (lost if k == 'translation' else fails).append((key or '?', None, d['message'], text))
                continue
            if key in degrade:
                continue
            new = set(f['calls']) & uncontracted
            if k == 'translation':
                more[key] = 'not in the subset the verifier reads: ' + d['message'].split('\n')[0]
            elif k == 'gaveup':
                gave[key] = 'the solver gave up: ' + d['message'].split('\n')[0]
            elif not f['contract']:
                degrade[key] = 'a function without a contract: ' + d['message'].split('\n')[0]
            elif new:
                degrade[key] = f'calls functions without a contract ({", ".join(sorted(new))}): ' + d['message'].split('\n')[0]
            else:
                fails.append((key, f['props'], d['message'], text))
        # Only what the verifier could not read keeps it from looking at the rest.
        if more and round_ < 5:
            degrade.update(more)
            continue
        if gave and not gaveup and '--rlimit' not in extra and not fails:
            gaveup = gave
            log('once more, with more time for ' + ', '.join(gave))
            extra = (*extra, '--rlimit', '60')
            continue
        degrade.update(more)
        degrade.update(gave)
        fails = [x for x in fails if x[0] not in degrade]
        if lost or not res:
            p.note = 'the extracted text is outside the subset the verifier reads: ' + '; '.join(f'{k}: {msg}' for k, _, msg, _ in lost[:5]) + ('' if lost else v['err'][-500:])
            p.bounded = {f['key']: 'not verified in this run' for f in m['functions'] if f['contract']}
            break
        p.failures = fails
        p.bounded = dict(degrade)
        p.text = v['err'] if fails else ''
        p.ok = not fails and bool(res.get('success', False) or degrade)
        if not fails and not p.ok:
            p.note = 'the verifier failed: ' + v['err'][-1000:]
        p.stats = stats(v)
        break
    for f in p.map.get('functions', []):
        if f['status'].startswith('lost'):
            p.bounded.setdefault(f['key'], f['status'])
    for k in p.map.get('missing', []):
        p.bounded.setdefault(k, 'no such function in the source any more')
    return p


def stats(v):
    res = v['res'].get('verification-results', {})
    tm = v['res'].get('times-ms', {})
    per, ms = {}, 0
    for mod in tm.get('smt', {}).get('smt-run-module-times', []):
        for f in mod.get('function-breakdown', []):
            per[f['function']] = per.get(f['function'], 0) + 1
            ms += f.get('time-micros', 0) / 1000
    return {'verified': res.get('verified', 0), 'errors': res.get('errors', 0), 'solver_ms': round(ms), 'queries': sum(per.values()), 'wall_s': round(v['wall'], 1), 'mods': sorted(per)}


SERDE_TRUST = [
    'assumed: the traits of serde (Serializer, Deserializer, Visitor and their access traits) are called as their mirrors in spec/sd.rs say; impls of Serialize and Visitor outside the crate satisfy the mirrored contracts',
    'assumed law sd_props::Derived::law: derived and built-in Deserialize impls read an item as `read` says (compared with the real impls in the bounded run of C16 and C17)',
]
def assumptions(lay):
    out = []
    for f in [f'{ROOT}/spec/{x}.rs' for _, fs in LAYERS[lay][1] for x in fs] + [f'{ROOT}/contracts/{c}.ct' for c in LAYERS[lay][2]]:
        t = open(f).read()
        for g in re.finditer(r'assume_specification\s*(?:<[^\[]*>)?\s*\[((?:[^\[\]]|\[[^\[\]]*\])*)\]', t):
            out.append('assumed contract: ' + ' '.join(g.group(1).split()))
        for g in re.finditer(r'axiom fn (\w+)', t):
            out.append('axiom: ' + g.group(1))
        for g in re.finditer(r'external_body\]\s*\n?\s*pub (?:proof )?(?:fn|struct) (\w+)', t):
            out.append('trusted: ' + g.group(1))
        for g in re.finditer(r'^@trusted (.*)$', t, re.M):
            out.append('trusted function: ' + g.group(1))
        if re.search(r'\b(assume|admit)\s*\(', t):
            out.append('ASSUME in ' + os.path.basename(f))
    return out


# ---------------------------------------------------------------- bridge

SAMPLES = {}


def limit_mem():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def bridge1(prop, stream, ms, tier, extra=()):
    cmd = [f'{TARGET}/harness/debug/bridge', prop, str(SEED), str(stream), str(ms), tier, *extra]
    e = env()
    e['RUST_BACKTRACE'] = '0'
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=ms / 1000 * 3 + 240, preexec_fn=limit_mem, env=e)
        rc, out, err = r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        rc, out, err = 71, '', 'timed out'
    j = None
    for l in out.splitlines():
        if l.startswith('{'):
            try:
                j = json.loads(l)
            except ValueError:
                pass
    return cmd, rc, j, err


def bridge(prop, ms, tier, streams=4, first=0):
    """Runs the real code against the property; returns (counts, violation or None)."""
    with cf.ThreadPoolExecutor(streams) as ex:
        rs = list(ex.map(lambda s: bridge1(prop, s, ms, tier), range(first, first + streams)))
    counts, bad = {}, None
    for cmd, rc, j, err in rs:
        if j is None:
            # Ended abnormally: find the case.
            trace = f'{BUILD}/trace-{prop}-{os.getpid()}'
            c2, rc2, j2, err2 = bridge1(prop, cmd[3], ms, tier, ['--trace', trace])
            case = open(trace).read().split() if os.path.exists(trace) else None
            if j2 is None and case:
                extra = ['--case', *case]
                c3, rc3, j3, err3 = bridge1(prop, cmd[3], 1000, tier, extra)
                why = 'does not return' if rc3 in (70, 71) else f'ends the process abnormally (status {rc3}): {err3.strip()[-300:]}'
                if j3 is None:
                    bad = bad or {'oracle': case[0], 'index': int(case[1]), 'stream': cmd[3], 'input': 'the input of this case', 'detail': why, 'cmd': ' '.join(c3)}
                    continue
            if j2 is None:
                log(f'bridge {prop} ended abnormally ({rc}, {rc2}) without a reproducible case: {err[-300:]}')
                continue
            j = j2
        for o, t in j.get('samples', []):
            SAMPLES.setdefault(o, t)
        for c in j['counts']:
            k = counts.setdefault(c['oracle'], [0, 0, c['exhaustive']])
            k[0] += c['cases']
            k[1] += c['nontrivial']
        if not j['ok'] and not bad:
            bad = dict(j, cmd=' '.join(cmd + ['--case', j['oracle'], str(j['index'])]))
            bad.pop('counts')
    return counts, bad


# ---------------------------------------------------------------- check

def manifest(prop):
    for c in json.load(open(f'{ROOT}/MANIFEST.json'))['checks']:
        if c['property'] == prop:
            return c
    return {'level': 'other'}


def known(prop):
    out = []
    for l in open(f'{ROOT}/known_findings.txt').read().splitlines():
        g = re.match(r'finding: property=(\S+) oracle=(\S+) input=(.*?) :: (.*)$', l)
        if g and g.group(1) == prop:
            out.append(g.groups())
    return out


def check(prop, tier):
    t0 = time.time()
    work = f'{BUILD}/{prop}-{os.getpid()}'
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    thorough = tier == 'thorough'
    ms = 120000 if thorough else 6000
    state = {}
    lay = layer(prop)
    done = threading.Event()

    def proof_side():
        try:
            build_extractor()
            exp = {c: expand(c, work) for c in LAYERS[lay][0]}
            state['expanded_s'] = round(time.time() - t0, 1)
            state['expanded'] = exp
            state['proof'] = prove(work, lay, exp)
        except (Failed, subprocess.TimeoutExpired, KeyError, ValueError) as x:
            p = Proof()
            p.note = str(x)
            state['proof'] = p
            log(x)

    def bridge_side():
        try:
            build_bridge()
            state['built'] = True
        except Failed as x:
            state['bridge_note'] = str(x)
            log(x)
            return
        state['bridge'] = bridge(prop, ms, tier)
        if state['bridge'][1]:
            # There is an input: the failed obligation is of interest, but not for long.
            DEADLINE[0] = min(DEADLINE[0], max(time.time() + 30, t0 + 300))

    DEADLINE[0] = t0 + (6000 if thorough else 560)
    fresh()
    # Cargo would serialize the two builds in one target directory anyway.
    th = threading.Thread(target=proof_side)
    th.start()
    bridge_side()
    th.join()
    p = state['proof']
    counts, bad = state.get('bridge', ({}, None))
    mine = [f for f in p.failures if f[1] is None and relevant(f[0], prop) or f[1] is not None and prop in f[1]]
    others = sorted({q for f in mine for q in (f[1] or []) if q != prop})
    explained = None
    bounded = {k: v for k, v in p.bounded.items() if prop in props_of(p, k)}
    if (mine or bounded or p.note) and not bad and state.get('built'):
        # An obligation is open: look longer for an input.
        c2, bad = bridge(prop, 40000 if mine else 15000, 'thorough' if mine else tier, 8, 10)
        for k, v in c2.items():
            n = counts.setdefault(k, [0, 0, v[2]])
            n[0] += v[0]
            n[1] += v[1]
        if mine and not bad:
            for q in others:
                _, b = bridge(q, 4000, 'quick', 8, 10)
                if b:
                    explained = (q, b)
                    break
    vac = None
    if thorough and p.ok and not bad:
        vac = vacuity(work, lay, state['expanded'])
    violation = None
    rdir = f'{BUILD}/replay'
    os.makedirs(rdir, exist_ok=True)
    replay = f'{rdir}/{prop}.json'
    findings = known(prop)
    if bad:
        for k in findings:
            if bad.get('oracle') == k[1] and bad.get('input') == k[2]:
                bad = None
                break
    for k in findings:
        print(f'KNOWN-FINDING: property={prop} {k[3]}')
    obls = [{'obligation': f[0], 'message': f[2], 'verifier_output': f[3]} for f in mine]
    if bad:
        json.dump({'property': prop, 'input': bad, 'replay': bad['cmd'], 'failed_obligations': obls}, open(replay, 'w'), indent=1)
        violation = f'VIOLATION property={prop} replay={replay}'
        log(f'{prop}: oracle {bad["oracle"]}: {bad["input"]}: {bad["detail"]}')
    elif mine and not explained:
        json.dump({'property': prop, 'input': None, 'failed_obligations': obls, 'verifier_output': p.text[-20000:]}, open(replay, 'w'), indent=1)
        violation = f'VIOLATION property={prop} replay={replay} no-failing-input-found'
    for f in mine:
        log(f'open obligation: {f[0]}: {f[2]}' + (f' (explained by an input that breaks {explained[0]})' if explained else ''))
    for k, v in bounded.items():
        log(f'bounded only: {k}: {v}')
    if p.note:
        log('no proof in this run: ' + p.note)
    fns = [f for f in p.map.get('functions', []) if f['contract']]
    rel = [f for f in fns if prop in f['props']]
    level = manifest(prop).get('level', 'other')
    st = p.stats or {}
    proved = [f['key'] for f in rel if f['status'] == 'contract' and f['key'] not in {x[0] for x in mine} and f['key'] not in p.bounded and not p.note]
    thms = [f for n, fs in LAYERS[lay][1] for x in fs for f in re.findall(r'pub (?:proof )?fn (c\d\d_\w+)', open(f'{ROOT}/spec/{x}.rs').read()) if f.upper().startswith(prop)]
    cov = {
        'obligations': st.get('verified', 0) + st.get('errors', 0),
        'discharged': st.get('verified', 0),
        'checker_cmd': p.cmd,
        'trusted_base': assumptions(lay) + (SERDE_TRUST if lay == 'serde' else []) + ['the verifier (Verus, rust_verify, Z3) and rustc', 'macro expansion by rustc and the extraction rules of DESIGN.md'],
        'back_end': 'Verus / Z3',
        'functions_under_contract': [f['key'] for f in rel],
        'functions_proved': proved,
        'functions_bounded_only': bounded,
        'functions_under_contract_all': len(fns),
        'theorems': thms,
        'open_obligations': [f'{f[0]}: {f[2]}' for f in mine],
        'solver_ms': st.get('solver_ms', 0),
        'solver_queries': st.get('queries', 0),
        'verifier_wall_s': st.get('wall_s', 0),
        'dropped_by_extraction': p.map.get('dropped', []),
        'evaluations': sum(v[0] for v in counts.values()),
        'distinct_nontrivial': sum(v[1] for v in counts.values()),
        'rule': 'cases run on the real code per oracle; a case counts as non-trivial when the oracle says that it got past trivial refusal; distinct by construction of seed, stream and index',
        'oracles': {k: {'cases': v[0], 'nontrivial': v[1], 'exhaustive': v[2]} for k, v in counts.items()},
        'samples': [{'oracle': k, 'case': v} for k, v in sorted(SAMPLES.items())] or sorted(counts),
    }
    if p.note:
        cov['no_proof'] = p.note
    if explained:
        cov['explained'] = {'property': explained[0], 'input': explained[1]}
    if vac is not None:
        cov['vacuity'] = vac
    os.makedirs(f'{ROOT}/evidence', exist_ok=True)
    json.dump({'property': prop, 'tier': tier, 'seed': SEED, 'level': level, 'coverage': cov,
               'assumptions': ['see trusted_base', 'a comparator passed to sort_by is a total preorder', 'no object exceeds isize::MAX bytes', 'stack and memory suffice'],
               'wall_s': round(time.time() - t0, 1), 'violations': 1 if violation else 0}, open(f'{ROOT}/evidence/{prop}.json', 'w'), indent=1)
    shutil.rmtree(work, ignore_errors=True)
    if not state.get('built') and not p.ok:
        print(f'{prop}: neither the proof nor the bridge could run: {p.note} {state.get("bridge_note", "")}')
        return 2
    if violation:
        print(violation)
        return 1
    print(f'{prop}: held: {len(proved)} of {len(rel)} functions proved, {st.get("verified", 0)} obligations, {cov["evaluations"]} cases, {time.time() - t0:.0f} s')
    return 0


def props_of(p, key):
    for f in p.map.get('functions', []):
        if f['key'] == key:
            return f['props']
    g = contract_props()
    return g.get(key, [])


def contract_props():
    out = {}
    for f in glob.glob(f'{ROOT}/contracts/*.ct'):
        cur = None
        for l in open(f):
            if l.startswith('@fn '):
                cur = re.sub(r'\s', '', l[4:])
            elif l.startswith('@props ') and cur:
                out[cur] = l.split()[1:]
    return out


def relevant(name, prop):
    """Lemmas and theorems: a theorem belongs to its property, a lemma to all."""
    g = re.match(r'.*::c(\d\d)_', name)
    return not g or f'C{g.group(1)}' == prop


def vacuity(work, lay, expanded):
    """Every contract must be satisfiable: asserting false at the start of each body has to fail."""
    out, m = extract(work, lay, expanded, (), True)
    w = Where(out, m)
    v = verus(out)
    failed = {w.of(d)[0] for d in v['diags']}
    fns = [f['key'] for f in m['functions'] if f['contract'] and f['status'] == 'contract' and f['body']]
    bad = [f for f in fns if f not in failed]
    if bad:
        log('contracts that cannot be met: ' + ', '.join(bad))
    return {'functions': len(fns), 'satisfiable': len(fns) - len(bad), 'suspicious': bad}


def setup():
    build_extractor()
    fresh()
    build_bridge()
    work = f'{BUILD}/setup'
    os.makedirs(work, exist_ok=True)
    for c in LAYERS['catalogue'][0]:
        expand(c, work)
    shutil.rmtree(work, ignore_errors=True)


def main():
    os.makedirs(BUILD, exist_ok=True)
    a = sys.argv[1:]
    if a[0] == 'setup':
        setup()
        return 0
    if a[0] == 'proof':
        build_extractor()
        fresh()
        work = f'{BUILD}/proof'
        os.makedirs(work, exist_ok=True)
        lay = a[1]
        exp = {c: expand(c, work) for c in LAYERS[lay][0]}
        p = prove(work, lay, exp, tuple(a[2:]))
        for f in p.failures:
            print(f[0], f[1], f[3], sep='\n')
        for k, v in p.bounded.items():
            print('bounded', k, v)
        print(p.ok, p.note, p.stats.get('verified'), p.stats.get('solver_ms'))
        return 0
    return check(a[1], a[2] if len(a) > 2 else os.environ.get('VERIF_TIER', 'quick'))


sys.exit(main())
