#!/usr/bin/env python3
"""Decides one property of /repo:  check.py ID [--thorough]   or   check.py --setup

For every property: TLC model checks the specification on small instances, TLC writes out
behaviours of the specification, the harness (built from /repo's working tree) runs those and
seeded random histories in the real code and records what happened, and TLC decides whether each
recorded history is a behaviour of the specification. A history that is not is a violation.
"""
import sys, os, re, json, time, subprocess, fcntl, shutil, random, concurrent.futures as cf

V = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
B = os.path.join(V, '.build')
SPEC = os.path.join(V, 'spec')
EVID = os.path.join(V, 'evidence')
TLA = '/opt/veriftools/tla'
CP = f'{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='1.90.0', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1',
           RUSTC_WRAPPER='', CARGO_PROFILE_DEV_DEBUG='line-tables-only')
sys.path.insert(0, V)
from props import PROPS, TITLES  # noqa: E402


class ToolError(Exception):
    pass


def log(*a):
    print(time.strftime('%H:%M:%S'), *a, flush=True)


# ------------------------------------------------------------------ building

def locked(name):
    os.makedirs(B, exist_ok=True)
    f = open(os.path.join(B, name + '.lock'), 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def cargo(manifest, target, extra=()):
    with locked('cargo-' + os.path.basename(target)):
        cmd = ['cargo', 'build', '--offline', '--manifest-path', manifest, '--target-dir', target, *extra]
        p = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            print(p.stdout[-6000:])
            raise ToolError('build failed: ' + ' '.join(cmd))


def build_harness():
    cargo(os.path.join(V, 'harness', 'Cargo.toml'), os.path.join(B, 'harness'))
    return os.path.join(B, 'harness', 'debug', 'mmverif')


def build_tools():
    pk = ['crox', 'flamegraph', 'mmedit', 'mmview', 'stack_collapse', 'summarize']
    extra = ['--locked']
    for p in pk:
        extra += ['-p', p]
    cargo(os.path.join(REPO, 'Cargo.toml'), os.path.join(B, 'tools'), extra)
    return os.path.join(B, 'tools', 'debug')


# ------------------------------------------------------------------ TLC

def tlc(work, module, cfg, args=(), env=None, workers=8, timeout=3000, heap='10g'):
    d = os.path.join(work, f'md-{module}-{random.randrange(10**9)}')
    cmd = ['java', '-XX:+UseParallelGC', '-Xss64m', f'-Xmx{heap}', '-cp', CP, 'tlc2.TLC', '-workers', str(workers),
           '-metadir', d, '-noGenerateSpecTE', '-config', os.path.join(SPEC, cfg), *args, os.path.join(SPEC, module + '.tla')]
    e = dict(os.environ, DIAG='0', TRACES='/dev/null')
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f'TLC timed out on {module} {cfg}')
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return p.returncode, p.stdout


def tlc_stats(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    return (int(m[-1][1]), int(m[-1][0])) if m else (0, 0)


def model_check(work, module, cfg, timeout):
    t0 = time.time()
    rc, out = tlc(work, module, cfg, timeout=timeout)
    if rc != 0 or 'No error has been found' not in out:
        i = out.find('Error:')
        print(out[i:i + 4000] if i >= 0 else out[-3000:])
        raise ToolError(f'the model {module} {cfg} does not satisfy its own properties')
    s, t = tlc_stats(out)
    if s == 0:
        raise ToolError(f'{module} {cfg}: no states')
    return {'model': module, 'config': cfg, 'distinct_states': s, 'states_generated': t, 'seconds': round(time.time() - t0, 1)}


def prove(work, module, args, timeout):
    """Apalache, symbolically: one step, or a step of an inductive invariant, for values of any size."""
    t0 = time.time()
    d = os.path.join(work, f'apa-{module}-{random.randrange(10**9)}')
    os.makedirs(d)
    cmd = ['apalache-mc', 'check', f'--out-dir={d}', *args, os.path.join(SPEC, module + '.tla')]
    try:
        p = subprocess.run(cmd, cwd=d, env=dict(os.environ, JVM_ARGS='-Xmx4g'), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f'Apalache timed out on {module} {args}')
    if p.returncode != 0 or 'The outcome is: NoError' not in p.stdout:
        print(p.stdout[-3000:])
        raise ToolError(f'Apalache does not prove {module} {args}')
    return {'module': module, 'args': ' '.join(args), 'seconds': round(time.time() - t0, 1)}


def generate(work, module, cfg, args, out_path, seed, limit):
    args = [a.replace('$SEED', str(seed)) for a in args]
    rc, out = tlc(work, module, cfg, args=args, workers=1 if '-simulate' in args else 8, timeout=600, env={'GENSEED': str(seed)})
    cases, seen = [], set()
    for m in re.finditer(r'<<"CASE", "((?:[^"\\]|\\.)*)">>', out):
        s = json.loads('"' + m.group(1) + '"')
        if s not in seen:
            seen.add(s)
            cases.append(s)
    if not cases or 'Error:' in out:
        i = out.find('Error:')
        print(out[i:i + 3000] if i >= 0 else out[-3000:])
        raise ToolError(f'no behaviours generated from {module} {cfg}')
    cases.sort()
    total = len(cases)
    if limit and total > limit:
        cases = random.Random(seed).sample(cases, limit)
    with open(out_path, 'a') as f:
        for c in cases:
            f.write(c + '\n')
    return {'model': module, 'config': cfg, 'behaviours': total, 'replayed': len(cases)}


DONE = re.compile(r'<<"DONE", (\d+)>>')
AT = re.compile(r'<<"AT", (\d+), (\d+)>>')
CANARY = {'id': -1, 'tag': 'canary', 'ops': [{'op': 'canary'}]}


def check_traces(work, module, cfg, path, env, timeout):
    """Returns (accepted count, list of (trace, index of the refused step), states, transitions)."""
    lines = [l for l in open(path) if l.strip()]
    chunks, cur, size = [], [], 0
    for l in lines:
        if cur and (size + len(l) > 16e6 or len(cur) >= 20000):
            chunks.append(cur)
            cur, size = [], 0
        cur.append(l)
        size += len(l)
    if cur:
        chunks.append(cur)
    acc, bad, st, tr = 0, [], 0, 0
    for ch in chunks:
        # a history that no specification accepts, to see that refusing works
        can = dict(json.loads(ch[0]), **CANARY)
        f = os.path.join(work, 'chunk.ndjson')
        with open(f, 'w') as o:
            o.writelines(ch)
            o.write(json.dumps(can) + '\n')
        rc, out = tlc(work, module, cfg, env=dict(env, TRACES=f), timeout=timeout)
        if 'No error has been found' not in out:
            i = out.find('Error:')
            print(out[i:i + 3000] if i >= 0 else out[-3000:])
            # A history that the specification cannot even evaluate (a value of a kind it does not
            # know) is no behaviour of it. TLC names it; judge it alone to be sure.
            m = re.findall(r'^(?:/\\ )?t = (\d+)$', out[i:], re.M)
            k = int(m[-1]) if m else 0
            if 1 <= k <= len(ch):
                with open(f, 'w') as o:
                    o.write(ch[k - 1])
                rc, out = tlc(work, module, cfg, env=dict(env, TRACES=f, DIAG='1'), timeout=timeout)
                if 'No error has been found' not in out and ('evaluat' in out or 'Attempted' in out) and 'OutOfMemory' not in out:
                    bad.append((json.loads(ch[k - 1]), max([int(b) for _, b in AT.findall(out)] or [0])))
                    continue
            raise ToolError(f'TLC failed on {module}')
        done = {int(x) for x in DONE.findall(out)}
        if len(ch) + 1 in done:
            raise ToolError('the canary was accepted')
        s, t = tlc_stats(out)
        st += s
        tr += t
        rej = [i for i in range(1, len(ch) + 1) if i not in done]
        acc += len(ch) - len(rej)
        if rej:
            rej = rej[:50]
            with open(f, 'w') as o:
                o.writelines(ch[i - 1] for i in rej)
            rc, out = tlc(work, module, cfg, env=dict(env, TRACES=f, DIAG='1'), timeout=timeout)
            at = {}
            for a, b in AT.findall(out):
                at[int(a)] = max(at.get(int(a), 0), int(b))
            for j, i in enumerate(rej, 1):
                bad.append((json.loads(ch[i - 1]), at.get(j, 0)))
    return acc, bad, st, tr


# ------------------------------------------------------------------ one check

def run_harness(exe, work, run, seed, tier, cases, env, timeout):
    area, mode = run
    out = os.path.join(work, f'{area}-{mode}.ndjson')
    args = [exe, area, mode, out, str(seed), tier] + ([cases] if cases else [])
    err = open(out + '.log', 'w')
    scratch = os.path.join(work, 'scratch')
    os.makedirs(scratch, exist_ok=True)
    e = dict(ENV, MMV_SCRATCH=scratch, RUST_BACKTRACE='0', **env)
    t0 = time.time()
    try:
        rc = subprocess.run(args, env=e, stdout=err, stderr=err, timeout=timeout, cwd=work).returncode
        how = f'exit {rc}'
    except subprocess.TimeoutExpired:
        rc, how = -99, f'no end within {timeout} s'
    info = {'run': f'{area} {mode}', 'seconds': round(time.time() - t0, 1)}
    if rc == 0 and os.path.exists(out + '.end'):
        info.update(json.load(open(out + '.end')))
    else:
        # The run was ended by the code under test (crash, abort, endless loop): no specification
        # has such a step. The last history shows what was going on.
        tail = open(out + '.log', errors='replace').read()[-1500:]
        log('harness ended early:', how, tail)
        n = sum(1 for _ in open(out)) if os.path.exists(out) else 0
        last = json.loads(list(open(out))[-1]) if n else {'threads': 1, 'claims': [], 'snaps': False}
        last.update(id=n + 1, tag='abort', ops=[{'op': 'abort', 'how': how, 'output': tail, 'mode': mode}])
        with open(out, 'a') as f:
            f.write(json.dumps(last) + '\n')
        info.update({'traces': n + 1, 'executions': n + 1, 'ended': how})
    return out, info


def check(pid, tier, seed):
    t0 = time.time()
    P = PROPS[pid]
    thorough = tier == 'thorough'
    tmo = 14000 if thorough else 800
    work = os.path.join(B, 'work', f'{pid}-{os.getpid()}')
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(EVID, exist_ok=True)
    replay = os.path.join(EVID, f'{pid}.replay.ndjson')
    if os.path.exists(replay):
        os.remove(replay)
    try:
        exe = build_harness()
        env = {'MMV_TOOLS': build_tools()} if P.get('tools') else {}
        log('built', round(time.time() - t0, 1))
        gens, runs, models = [], [], []
        pool = cf.ThreadPoolExecutor(3)
        mfut = [pool.submit(model_check, work, m[0], m[2] if thorough and len(m) > 2 else m[1], tmo) for m in P.get('models', [])]
        pfut = [pool.submit(prove, work, m, a, tmo) for m, a in P.get('proofs', [])]
        rfut = []
        for r in P['runs']:
            cases = None
            for g in r.get('gen', []):
                cases = os.path.join(work, f"cases-{r['area']}-{r['mode']}.ndjson")
                if g.get('thorough') and not thorough:
                    continue
                gens.append(generate(work, g['module'], g['cfg'], [a if not thorough else a.replace('num=', 'num=1') for a in g.get('args', [])],
                                     cases, seed, g.get('limit_thorough' if thorough else 'limit')))
            if cases and not os.path.exists(cases):
                cases = None
            rfut.append((r, pool.submit(run_harness, exe, work, (r['area'], r['mode']), seed, tier, cases, env, tmo * 2 // 3)))
        total_acc, viol, tstates, ttrans, samples, kinds = 0, [], 0, 0, [], {}
        for r, f in rfut:
            out, info = f.result()
            runs.append(info)
            if info['traces'] == 0:
                raise ToolError(f'no histories from {r}')
            acc, bad, s, t = check_traces(work, r['trace'], r.get('cfg', r['trace'] + '.cfg'), out,
                                          {'PROP': pid}, tmo)
            log(info, 'accepted', acc, 'refused', len(bad))
            info['accepted'] = acc
            info['trace_check'] = {'module': r['trace'], 'states': s, 'transitions': t}
            total_acc += acc
            tstates += s
            ttrans += t
            viol += [(r, b) for b in bad]
            with open(out) as fo:
                for l in fo:
                    o = json.loads(l)
                    k = (r['mode'], o['tag'])
                    kinds[k] = kinds.get(k, 0) + 1
                    if kinds[k] == 1 and len(l) < 6000 and len(samples) < 6:
                        samples.append(o)
        models = [f.result() for f in mfut]
        proofs = [f.result() for f in pfut]
        pool.shutdown()
        ev = {
            'property': pid, 'tier': tier, 'seed': seed, 'level': P.get('level', 'model_checking'),
            'coverage': {
                'states': sum(m['distinct_states'] for m in models) + tstates,
                'transitions': sum(m['states_generated'] for m in models) + ttrans,
                'traces_validated_against_impl': total_acc,
                'evaluations': sum(i.get('executions', 0) for i in runs),
                'distinct_nontrivial': sum(i['traces'] for i in runs),
                'rule': P['rule'],
                'samples': samples,
                'models': models, 'proofs': proofs, 'generated': gens, 'runs': runs,
                'histories_by_kind': {f'{a}/{b}': n for (a, b), n in sorted(kinds.items())},
            },
            'assumptions': P.get('assumptions', []),
            'wall_s': round(time.time() - t0, 1), 'violations': len(viol),
        }
        while len(json.dumps(ev)) > 60000 and ev['coverage']['samples']:
            ev['coverage']['samples'].pop()
        if not ev['coverage']['samples']:
            ev['coverage']['samples'] = [json.dumps(samples[0])[:3000] if samples else 'none']
        with open(os.path.join(EVID, pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if viol:
            with open(replay, 'w') as f:
                for r, (tr, at) in viol[:20]:
                    tr['refused_step'] = at + 1
                    tr['checked_by'] = r['trace']
                    f.write(json.dumps(tr) + '\n')
            for r, (tr, at) in viol[:3]:
                step = tr['ops'][at] if at < len(tr['ops']) else tr['ops'][-1] if tr['ops'] else None
                log(f"{r['trace']}: history {tr['id']} ({tr['tag']}) of {r['mode']} refused at step {at + 1}:", json.dumps(step)[:1500])
            print(f'VIOLATION property={pid} replay={replay}', flush=True)
            return 1
        log(f"{pid} held: {total_acc} histories, {ev['coverage']['states']} states, {ev['wall_s']} s")
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    a = sys.argv[1:]
    try:
        if a[0] == '--setup':
            build_harness()
            build_tools()
            return 0
        if a[0] == '--replay':
            # check.py --replay FILE: check recorded histories again
            work = os.path.join(B, 'work', f'replay-{os.getpid()}')
            os.makedirs(work)
            m = json.loads(open(a[1]).readline())['checked_by']
            acc, bad, _, _ = check_traces(work, m, m + '.cfg', a[1], {}, 600)
            for tr, at in bad:
                print(tr['id'], 'refused at step', at + 1, json.dumps(tr['ops'][at] if at < len(tr['ops']) else None)[:2000])
            shutil.rmtree(work)
            return 1 if bad else 0
        tier = 'thorough' if '--thorough' in a else os.environ.get('VERIF_TIER', 'quick')
        if tier not in ('quick', 'thorough'):
            tier = 'quick'
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        return check(a[0], tier, seed)
    except ToolError as e:
        log('ERROR', e)
        return 2


sys.exit(main())
