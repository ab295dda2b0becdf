"""Runner: discharges the contract obligations of one property on /repo's
current source, and decides what to report.  See DESIGN.md, "Decision"."""
import json, os, re, subprocess, sys, time, shutil, hashlib, tempfile, resource
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
H = os.path.join(VERIF, 'h')

FEATURES = {'NOSTR_FEATURE_ENCODING': 'ON'}
DEFINED = """NIP05 NIP10 NIP13 NIP18 NIP25 NIP26 NIP49 NIP51 NIP57 NIP65 RELAY RELAY_PROTOCOL HD_KEYS
JSON_ENHANCED THREADING CRYPTO_SECP256K1""".split()
HAVE = ['HAVE_SECP256K1', 'HAVE_CJSON', 'HAVE_LIBWEBSOCKETS', 'HAVE_UTF8PROC', 'HAVE_SCHNORRSIG_SIGN32']


def gen_features(outdir, conf):
    """nostr_features.h for the two configurations /opt/vp/build.sh builds, from
    /repo's own template."""
    defs = {'NOSTR_FEATURE_' + d for d in DEFINED} | set(HAVE)
    if conf == 'mbedtls':
        defs.add('HAVE_MBEDTLS')
    src = open(os.path.join(REPO, 'include/nostr_features.h.in')).read()
    for k, v in FEATURES.items():
        src = src.replace('@%s@' % k, v)
    src = re.sub(r'#cmakedefine\s+(\w+)', lambda m: '#define ' + m.group(1) if m.group(1) in defs
                 else '/* #undef %s */' % m.group(1), src)
    src = re.sub(r'@\w+@', '', src)
    os.makedirs(outdir, exist_ok=True)
    with open(os.path.join(outdir, 'nostr_features.h'), 'w') as f:
        f.write(src)


class Unit:
    """One proof unit: a contract of one or more /repo functions."""
    def __init__(self, name, harness, functions, defs=(), unwind=None, unwindset=None, flags=(),
                 conf='openssl', timeout=300, bounded=None, dfcc=None, annotate=None, solver=None,
                 fallback=False, native=True, loops=False, replace=None, pre_unwind=None, tier='quick', objbits=12, mem_gb=12, libs=()):
        self.__dict__.update(locals())
        del self.__dict__['self']
        self.unwindset = dict(unwindset or {})


def _lim(mem_gb):
    def f():
        os.setsid()
        b = int(mem_gb * (1 << 30))
        resource.setrlimit(resource.RLIMIT_AS, (b, b))
    return f


def sh(cmd, timeout, cwd=None, mem_gb=12, env=None):
    t0 = time.time()
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd,
                             preexec_fn=_lim(mem_gb) if mem_gb else os.setsid, env=env)
        try:
            o, e = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            o, e = p.communicate()
            rc = 'timeout'
    except OSError as ex:
        return 'oserr', '', str(ex), 0
    return rc, o.decode('utf8', 'replace'), e.decode('utf8', 'replace'), time.time() - t0


def incs(work, u):
    return ['-I' + os.path.join(work, 'annot_' + u.name), '-I' + REPO, '-I' + os.path.join(REPO, 'include'),
            '-I' + os.path.join(work, 'cfg', u.conf), '-I' + os.path.join(REPO, 'src'), '-I' + H,
            '-I/usr/include/cjson', '-std=gnu99']


def annotate(work, u):
    """Mechanical in-place annotation: a copy of the current source with loop
    contracts inserted after the loop header that matches the pattern.  Nothing
    else changes; returns None or why it could not attach."""
    base = os.path.join(work, 'annot_' + u.name)
    for f, edits in (u.annotate or {}).items():
        s = open(os.path.join(REPO, f)).read()
        for (pat, ins) in edits:
            m = list(re.finditer(pat, s, re.S))
            if len(m) != 1:
                return 'loop contract of %s does not attach (%d matches)' % (f, len(m))
            if not isinstance(ins, str):
                return 'bad annotation'
            k = m[0].end()
            s = s[:k] + '\n' + ins + '\n' + s[k:]
        p = os.path.join(base, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'w').write(s)
    return None


def cbmc_base(u):
    c = ['cbmc', '--no-malloc-may-fail', '--object-bits', str(u.objbits), '--json-ui', '--verbosity', '8']
    if u.unwind:
        c += ['--unwind', str(u.unwind)]
    if u.unwindset:
        c += ['--unwindset', ','.join('%s:%d' % kv for kv in u.unwindset.items())]
    if u.solver:
        c += u.solver.split()
    return c + list(u.flags)


def build_gb(work, u):
    gb = os.path.join(work, u.name + '.gb')
    why = annotate(work, u)
    if why:
        return None, 'attach', why
    cmd = ['goto-cc', '-D__NO_CTYPE', '-DVF_CBMC', '--function', 'vf_entry', os.path.join(H, u.harness), '-o', gb] + incs(work, u) + ['-D' + d for d in u.defs]
    rc, o, e, _ = sh(cmd, 120)
    if rc != 0:
        return None, 'compile', (o + e)[-2000:]
    if u.replace:
        gb2 = os.path.join(work, u.name + '.r.gb')
        cmd = ['goto-instrument']
        for f, g in u.replace.items():
            cmd += ['--replace-calls', '%s:%s' % (f, g)]
        rc, o, e, _ = sh(cmd + [gb, gb2], 300)
        if rc != 0:
            return None, 'instrument', (o + e)[-2000:]
        gb = gb2
    if u.pre_unwind:
        gb2 = os.path.join(work, u.name + '.u.gb')
        rc, o, e, _ = sh(['goto-instrument', '--unwindset', ','.join('%s:%d' % kv for kv in u.pre_unwind.items()), '--unwinding-assertions', gb, gb2], 300)
        if rc != 0:
            return None, 'instrument', (o + e)[-2000:]
        gb = gb2
    if u.loops:
        gb2 = os.path.join(work, u.name + '.l.gb')
        rc, o, e, _ = sh(['goto-instrument', '--apply-loop-contracts', gb, gb2], 300)
        if rc != 0:
            return None, 'instrument', (o + e)[-2000:]
        gb = gb2
    if u.dfcc:
        gb2 = os.path.join(work, u.name + '.i.gb')
        cmd = ['goto-instrument', '--dfcc', 'vf_entry']
        for f in u.dfcc.get('enforce', []):
            cmd += ['--enforce-contract', f]
        for f in u.dfcc.get('replace', []):
            cmd += ['--replace-call-with-contract', f]
        cmd += ['--no-malloc-may-fail']
        cmd += [gb, gb2]
        rc, o, e, _ = sh(cmd, 300)
        if rc != 0:
            return None, 'instrument', (o + e)[-2000:]
        gb = gb2
    return gb, None, None


def parse_json(o):
    try:
        return json.loads(o)
    except Exception:
        return None


def run_unit(work, u, tier):
    r = run_once(work, u, tier, None)
    t, acc = 0, {}
    while t < 4 and r['status'] == 'undecided' and r['failed'] and not r.get('nobody') and r['solver_s'] < 120 and \
            all('.unwind.' in b['property'] for b in r['failed']):
        ids = {b['property'].replace('.unwind.', '.') for b in r['failed']}
        t += 1
        first = r['solver_s']
        for i in ids:
            acc[i] = acc.get(i, max(u.unwind or 1, (u.unwindset or {}).get(i, 1))) * 4
        r = run_once(work, u, tier, acc)
        r['solver_s'] = round(r['solver_s'] + first, 2)
    return r


def run_once(work, u, tier, extra):
    r = {'name': u.name, 'functions': list(u.functions), 'conf': u.conf, 'bounded': u.bounded,
         'harness': u.harness, 'status': None, 'obligations': 0, 'discharged': 0, 'solver_s': 0.0,
         'failed': [], 'why': '', 'backend': u.solver or 'cbmc SAT (built-in)'}
    if u.loops:
        r['contract_mode'] = 'inductive loop contracts (goto-instrument --apply-loop-contracts), unbounded'
    if u.replace:
        r['callee_contracts'] = u.replace
    if u.dfcc:
        r['contract_mode'] = 'goto-instrument --dfcc ' + json.dumps(u.dfcc)
    gb, kind, why = build_gb(work, u)
    if not gb:
        r['status'] = 'undecided'; r['why'] = kind + ': ' + why
        return r
    cmd = cbmc_base(u) + [gb]
    if extra:      # second attempt: loops the first one did not unroll far enough
        i = cmd.index('--unwindset') + 1 if '--unwindset' in cmd else None
        more = ','.join('%s:%d' % kv for kv in extra.items())
        if i:
            cmd[i] += ',' + more
        else:
            cmd[1:1] = ['--unwindset', more]
    r['cmd'] = ' '.join(cmd)
    rc, o, e, dt = sh(cmd, u.timeout * (4 if tier == 'thorough' else 1), mem_gb=u.mem_gb)
    r['solver_s'] = round(dt, 2)
    if rc == 'timeout':
        r['status'] = 'undecided'; r['why'] = 'solver timeout after %ds' % u.timeout
        return r
    js = parse_json(o)
    res, msgs = None, []
    for m in js or []:
        if 'result' in m:
            res = m['result']
        if 'messageText' in m:
            msgs.append(m['messageText'])
    r['nobody'] = sorted({x for m in msgs for x in re.findall(r'no body for (?:function|callee) (\S+)', m)
                          if not x.strip("'\"").startswith('nondet_')})
    if res is None:
        r['status'] = 'undecided'; r['why'] = 'no verifier answer (rc %s): %s' % (rc, (' | '.join(msgs[-3:]) + e)[-600:])
        return r
    reach_ok = reach_bad = 0
    bad = []
    for p in res:
        d = p.get('description', '')
        if d.startswith('REACH '):
            if p['status'] == 'FAILURE':
                reach_ok += 1
            else:
                reach_bad += 1
                r.setdefault('unreached', []).append(d)
            continue
        r['obligations'] += 1
        if p['status'] == 'SUCCESS':
            r['discharged'] += 1
        else:
            bad.append({'property': p['property'], 'description': d, 'status': p['status'],
                        'loc': '%s:%s' % (p.get('sourceLocation', {}).get('file', '?'), p.get('sourceLocation', {}).get('line', '?'))})
    r['reach'] = reach_ok
    r['failed'] = bad
    if bad:
        hard = [b for b in bad if b['status'] == 'FAILURE' and 'unwind' not in b['property']
                and not b['description'].startswith('MODEL ') and 'recursion' not in b['property']]
        if not hard or r['nobody']:
            r['status'] = 'undecided'
            r['why'] = ('unmodelled callee ' + ','.join(r['nobody'])) if r['nobody'] else \
                'only tool-limit obligations failed: ' + '; '.join(b['property'] for b in bad[:4])
            r['hard'] = hard
        else:
            r['status'] = 'failed'; r['hard'] = hard
    elif r['nobody']:
        r['status'] = 'undecided'; r['why'] = 'unmodelled callee ' + ','.join(r['nobody'])
    elif reach_bad or not reach_ok or not r['obligations']:
        r['status'] = 'undecided'; r['why'] = 'vacuity guard: %s' % (r.get('unreached') or 'no reach point / no obligation')
    else:
        r['status'] = 'proved'
    r['label'] = 'bounded-ok' if r['bounded'] else 'proved'
    r['gb'] = gb
    return r


def native_build(work, u):
    exe = os.path.join(work, u.name + '.native')
    if os.path.exists(exe):
        return exe
    cmd = ['gcc', '-g', '-O1', '-DVF_NATIVE', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
           '-fno-omit-frame-pointer', '-Wl,--unresolved-symbols=ignore-all',
           os.path.join(H, u.harness), '-o', exe] + incs(work, u) + ['-D' + d for d in u.defs] + ['-l' + l for l in u.libs] + ['-lm', '-lpthread']
    if u.annotate:
        return None
    rc, o, e, _ = sh(cmd, 120, mem_gb=None)
    if rc != 0:
        u.native_err = (o + e)[-800:]
        return None
    return exe


NENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:symbolize=1:max_allocation_size_mb=2000',
            UBSAN_OPTIONS='print_stacktrace=1')


def log_values(js):
    """values the counterexample gave to vf_log, in order"""
    vals = []
    for m in js or []:
        for p in m.get('result', []) if isinstance(m.get('result'), list) else []:
            for s in p.get('trace', []):
                if s.get('stepType') == 'assignment' and s.get('lhs') == 'vf_log' and not s.get('hidden'):
                    v = s.get('value', {})
                    b = v.get('binary')
                    vals.append(int(b, 2) if b else int(re.sub(r'[a-zA-Z]+$', '', str(v.get('data', '0')))) & (2**64 - 1))
            if vals:
                return vals
    return vals


def confirm(work, u, r, seed, secs):
    """Replay the verifier's counterexamples on the real code compiled natively;
    then look for a failing input.  Returns a dict or None."""
    exe = native_build(work, u) if u.native else None
    info = {'native': bool(exe)}
    if exe and r.get('hard') and r.get('gb'):
        for b in r['hard'][:4]:
            cmd = cbmc_base(u) + ['--trace', '--property', b['property'], r['gb']]
            rc, o, e, dt = sh(cmd, min(u.timeout, 240), mem_gb=u.mem_gb)
            vals = log_values(parse_json(o)) if rc != 'timeout' else []
            if not vals:
                continue
            f = os.path.join(work, u.name + '.cex')
            open(f, 'w').write('\n'.join(map(str, vals)) + '\n')
            rc, o, e, _ = sh([exe, 'replay', f], 40, mem_gb=None, env=NENV)
            if 'NATIVE-FAIL' in o or (rc not in (0, 'timeout') and ('ERROR: AddressSanitizer' in e or 'runtime error:' in e)):
                return dict(info, how='verifier counterexample replayed on the real code', values=vals, obligation=b,
                            output=(o + e)[-3000:])
    if exe:
        f = os.path.join(work, u.name + '.fz')
        if os.path.exists(f):
            os.unlink(f)
        rc, o, e, _ = sh([exe, 'fuzz', str(seed), str(secs), f], secs + 60, mem_gb=None, env=NENV)
        if 'NATIVE-FAIL' in o and os.path.exists(f):
            vals = open(f).read().split()
            return dict(info, how='failing input found by search with the contract as oracle', values=vals,
                        obligation=(r.get('hard') or [{}])[0], output=(o + e)[-3000:])
        info['native_out'] = (o + e)[-300:]
    r['native'] = info
    return None


def main(pid, tier, mod):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    work = os.path.join(VERIF, '.work', pid + ('' if tier == 'quick' else '_t'))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    for c in ('openssl', 'mbedtls'):
        gen_features(os.path.join(work, 'cfg', c), c)
    units = [u for u in mod.UNITS if tier == 'thorough' or u.tier == 'quick']
    only = os.environ.get('VF_ONLY')
    if only:
        units = [u for u in units if re.search(only, u.name)]
    if os.environ.get('VF_NATIVE'):       # development aid: the harnesses on the native build only
        def nat(u):
            if not u.native or u.annotate:
                return u.name + ' no native build'
            exe = native_build(work, u)
            if not exe:
                return u.name + ' NATIVE BUILD FAILED ' + getattr(u, 'native_err', '')
            rc, o, e, _ = sh([exe, 'fuzz', str(seed), os.environ['VF_NATIVE'], os.path.join(work, u.name + '.fz')], 200, mem_gb=None, env=NENV)
            return '%s rc=%s %s %s' % (u.name, rc, o.strip()[-300:], e[-1500:] if rc else '')
        with ThreadPoolExecutor(8) as ex:
            for l in ex.map(nat, units):
                print(l)
        shutil.rmtree(work, ignore_errors=True)
        return 0
    with ThreadPoolExecutor(int(os.environ.get('VF_JOBS', '8'))) as ex:
        results = list(ex.map(lambda u: run_unit(work, u, tier), units))
    verbose = os.environ.get('VF_V')
    violations, notes = [], []
    by = {u.name: u for u in units}
    st = {r['name']: r['status'] for r in results}

    def handle(r):
        u = by[r['name']]
        if r['status'] == 'proved':
            return None
        # an unbounded (loop-contract) unit that fails or does not attach is decided by
        # its complete-unwinding / bounded companion when it has one
        if u.fallback and st.get(u.fallback) == 'proved':
            r['note'] = 'undecided by loop contract; decided (bounded) by ' + u.fallback
            return None
        if u.fallback and st.get(u.fallback) == 'failed':
            return None
        c = confirm(work, u, r, seed, 20 if tier == 'quick' else 60)
        if c:
            return (r, c)
        if r['status'] == 'failed':
            return (r, None)
        return None
    with ThreadPoolExecutor(4) as ex:
        for h in ex.map(handle, results):
            if h:
                violations.append(h)
    # any confirmed violation supersedes unconfirmed ones
    rc = 0
    vdir = os.path.join(VERIF, 'replay')
    os.makedirs(vdir, exist_ok=True)
    lines = []
    conf_v = [v for v in violations if v[1]]
    show = conf_v or violations
    for r, c in show[:3]:
        f = os.path.join(vdir, '%s_%s.txt' % (pid, r['name']))
        with open(f, 'w') as fh:
            fh.write('property %s, proof unit %s (harness h/%s)\nfunctions: %s\nverifier: %s\nfailed obligations:\n' %
                     (pid, r['name'], r['harness'], ', '.join(r['functions']), r.get('cmd')))
            for b in sorted(r['failed'], key=lambda b: b['status'] != 'FAILURE')[:20]:
                fh.write('  [%s] %s (%s) %s\n' % (b['property'], b['description'], b['loc'], b['status']))
            if c:
                fh.write('\nconfirmed: %s\nvalues (vf_* choices in order):\n%s\n\nnative output:\n%s\n' %
                         (c['how'], ' '.join(map(str, c['values'])), c['output']))
            else:
                fh.write('\nno failing input was found natively: %s\n' % json.dumps(r.get('native')))
        lines.append('VIOLATION property=%s replay=%s%s' % (pid, f, '' if c else ' no-failing-input-found'))
        rc = 1
    und = [r for r in results if r['status'] == 'undecided']
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': mod.LEVEL, 'wall_s': 0.0,
          'coverage': {
              'obligations': sum(r['obligations'] for r in results if not r['bounded']),
              'discharged': sum(r['discharged'] for r in results if not r['bounded']),
              'bounded_obligations': sum(r['obligations'] for r in results if r['bounded']),
              'bounded_discharged': sum(r['discharged'] for r in results if r['bounded']),
              'checker_cmd': 'python3 check.py %s %s  (goto-cc | goto-instrument --dfcc | cbmc 6.11 per proof unit, see units[].cmd)' % (pid, tier),
              'trusted_base': ['cbmc 6.11.0 / goto-cc / goto-instrument and its SAT back end', 'the C semantics cbmc gives gcc x86_64 (LP64)'] + list(mod.TRUSTED),
              'functions_under_contract': sorted({f for r in results for f in r['functions']}),
              'solver_s': round(sum(r['solver_s'] for r in results), 1),
              'reach_points_hit': sum(r.get('reach', 0) for r in results),
              'undecided_units': [{'name': r['name'], 'why': r['why']} for r in und],
              'units': [{k: r.get(k) for k in ('name', 'functions', 'conf', 'status', 'obligations', 'discharged', 'reach', 'solver_s', 'bounded', 'backend', 'contract_mode', 'callee_contracts', 'note', 'why', 'cmd', 'native') if r.get(k) not in (None, '')} for r in results],
              'bounded_units': [r['name'] + ': ' + r['bounded'] for r in results if r['bounded']],
              'samples': [r['name'] for r in results][:5],
              'explanation': mod.__doc__ or ''},
          'assumptions': list(mod.ASSUME), 'violations': len(show)}
    ev['wall_s'] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    for r in results:
        print('%-34s %-10s %5d/%-5d reach=%d %6.1fs %s' % (r['name'], r.get('label', r['status']) if r['status'] == 'proved' else r['status'], r['discharged'], r['obligations'], r.get('reach', 0), r['solver_s'], (r['why'] or '')[:300 if not verbose else 3000]))
        for b in sorted(r['failed'], key=lambda b: b['status'] != 'FAILURE')[:8 if not verbose else 60]:
            print('     %s [%s] %s (%s)' % (b['status'], b['property'], b['description'], b['loc']))
    kf = getattr(mod, 'KNOWN', None)
    for k in kf or []:
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    for l in lines:
        print(l)
    if not os.environ.get('VF_KEEP'):
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    return rc
