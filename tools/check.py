#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on the current tree of /repo.

Builds the drivers from /repo's working tree (through a source overlay), records
traces of the real code under a seeded scheduler, has TLC validate every trace
against the TLA+ specification, and model-checks the specification itself.
Exit 0: held on everything explored; 1: VIOLATION line printed.
"""
import concurrent.futures as cf
import json, os, random, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
from suites import SUITES, FAMILIES, MODELS, lit   # noqa: E402

REPO = '/repo'
SPEC = os.path.join(VERIF, 'spec')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
GOENV = dict(os.environ, GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off',
             PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'])
GOENV.setdefault('HOME', '/root')
T0 = time.time()
WORKERS = 8


def log(*a):
    print(f'[{time.time() - T0:6.1f}s]', *a, flush=True)


def trouble(msg):
    """The check itself failed: neither 0 nor 1."""
    print('ERROR:', msg, flush=True)
    sys.exit(3)


def run(cmd, timeout, env=None, cwd=None, stdout=None):
    p = subprocess.Popen(cmd, env=env, cwd=cwd, stdout=stdout or subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True, text=True, errors='replace')
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out or ''
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, _ = p.communicate()
        return -9, out or ''


# ---------------------------------------------------------------- build
def build(work, pkgs):
    ov = os.path.join(work, 'ov')
    os.mkdir(ov)
    har = os.path.join(VERIF, 'harness')
    rc, out = run(['go', 'run', './cmd/instr', REPO, ov], 300, GOENV, har)
    if rc:
        trouble('instrumenting /repo failed:\n' + out)
    nsites = len(json.load(open(os.path.join(ov, 'sites.json'))))
    bins = {}
    for p in sorted(pkgs):
        b = os.path.join(work, p + '.test')
        rc, out = run(['go', 'test', '-c', '-vet=off', '-overlay', os.path.join(ov, 'overlay.json'), '-o', b, './' + p],
                      600, GOENV, har)
        if rc:
            trouble(f'building the {p} driver failed:\n' + out[-4000:])
        bins[p] = b
    return bins, nsites


# ---------------------------------------------------------------- drive
class Dead(Exception):
    pass


def drive(bins, nsites, fam, seed, lo, n, out, limit, scripts=None):
    """Record scenarios lo..lo+n-1; returns (traces file, list of deaths)."""
    kind = FAMILIES[fam]['driver']
    deaths = []
    end = lo + n
    parts = []
    k = 0
    while lo < end:
        part = f'{out}.{k}'
        k += 1
        env = dict(os.environ, OUT=part, FAM=fam, SEED=str(seed), LO=str(lo), N=str(end - lo), NSITES=str(nsites),
                   TIER=TIER, GOMAXPROCS='4', GOTRACEBACK='all')
        if scripts:
            env['SCRIPTS'] = scripts
        rc, so = watch([bins[kind], '-test.run', 'TestDrive', '-test.timeout', '0'], env, limit)
        done = sum(1 for _ in open(part, 'rb')) if os.path.exists(part) else 0
        parts.append(part)
        if rc == 0 and done == end - lo:
            break
        # the process died in scenario lo+done: does it do so again, alone?
        at = lo + done
        if at >= end:
            break
        again = 0
        txt = so
        for _ in range(2):
            env2 = dict(env, LO=str(at), N='1', OUT=f'{out}.again')
            rc2, so2 = watch([bins[kind], '-test.run', 'TestDrive', '-test.timeout', '0'], env2, limit)
            if rc2 != 0:
                again += 1
                txt = so2
        deaths.append({'fam': fam, 'seed': seed, 'index': at, 'again': again, 'rc': rc, 'out': txt[-6000:]})
        if len(deaths) >= 3:
            break
        lo = at + 1
    with open(out, 'wb') as w:
        for p in parts:
            if os.path.exists(p):
                for line in open(p, 'rb'):
                    if line.endswith(b'\n'):
                        w.write(line)
                os.unlink(p)
    return deaths


def watch(cmd, env, limit):
    """Run a driver; kill it when it has not begun a new scenario for `limit` s."""
    p = subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True)
    buf = []
    last = [time.time()]

    def rd():
        for line in p.stderr:
            if line.startswith(b'SCENARIO'):
                last[0] = time.time()
                buf.clear()
            buf.append(line)
            if len(buf) > 400:
                del buf[200:300]
    th = threading.Thread(target=rd, daemon=True)
    th.start()
    killed = False
    while p.poll() is None:
        time.sleep(0.02)
        if time.time() - last[0] > limit:
            killed = True
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
    th.join(5)
    so = b''.join(buf).decode(errors='replace')
    if killed:
        so = f'HANG: no progress for {limit} s\n' + so
    return (p.returncode if not killed else -9), so


# ---------------------------------------------------------------- TLC
def tlc(work, module, cfg, env, timeout, heap='3g', workers='1', opts=(), dfs=True):
    d = tempfile.mkdtemp(dir=work)
    for f in os.listdir(SPEC):
        if f.endswith(('.tla', '.cfg')):
            os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
    jopt = f'-Xmx{heap} -Xss256m -XX:+UseParallelGC -XX:ParallelGCThreads=2 -XX:TieredStopAtLevel=4'
    if dfs:
        jopt += ' -Dtlc2.tool.queue.IStateQueue=StateDeque'
    e = dict(os.environ, JAVA_TOOL_OPTIONS=jopt, **env)
    rc, out = run(['tlc', '-workers', workers, '-metadir', os.path.join(d, 'meta'), *opts, '-config', cfg + '.cfg', module + '.tla'],
                  timeout, e, d)
    shutil.rmtree(d, ignore_errors=True)
    return rc, out


VERD = re.compile(r'<<"VERDICT", (\d+), "(\w+)", (\d+), (\d+), (\{.*?\})>>', re.S)
STAT = re.compile(r'(\d+) states generated, (\d+) distinct states found')


def validate(work, fam, traces, budget, timeout, prune='1'):
    """TLC verdicts: list of (index, verdict, furthest, states), transitions, states.

    With PRUNE=1 the specification looks ahead in the trace and drops choices
    that the rest of it rules out; what that rejects is validated again without.
    """
    spec = FAMILIES[fam]['spec']
    rc, out = tlc(work, spec, spec, {'TRACES': traces, 'BUDGET': str(budget), 'PRUNE': prune}, timeout)
    v = [(int(a), b, int(c), int(d)) for a, b, c, d, _ in VERD.findall(out)]
    m = STAT.findall(out)
    if not v or not m:
        raise Dead(f'TLC gave no verdict on {fam} (rc {rc}):\n' + out[-3000:])
    return v, int(m[-1][0]), int(m[-1][1])


def confirm(work, fam, lines, budget, timeout):
    """Rejected traces again, without pruning: (verdict, furthest) for each."""
    t = tempfile.mktemp(dir=work, suffix='.nd')
    with open(t, 'w') as w:
        w.writelines(lines)
    v, _, _ = validate(work, fam, t, budget, timeout, '0')
    return [(b, c) for _, b, c, _ in v]


def accuse(work, fam, lines, fronts, budget, timeout):
    """Last pass over rejected traces: the properties each one breaks."""
    t = tempfile.mktemp(dir=work, suffix='.nd')
    with open(t, 'w') as w:
        w.writelines(lines)
    fr = tempfile.mktemp(dir=work, suffix='.nd')
    with open(fr, 'w') as w:
        w.write(json.dumps(fronts) + '\n')
    spec = FAMILIES[fam]['spec']
    rc, out = tlc(work, spec, spec, {'TRACES': t, 'FRONT': fr, 'BUDGET': str(budget)}, timeout)
    res = {}
    for a, b, _, _, s in VERD.findall(out):
        res[int(a) - 1] = (b, sorted(re.findall(r'"(\w+)"', s)))
    return [res.get(i, ('rejected', [])) for i in range(len(lines))]


def states(dump):
    """The states of a TLC dump, as dictionaries of unparsed values."""
    cur = None
    for line in open(dump):
        if line.startswith('State '):
            if cur:
                yield cur
            cur = {}
        elif line.startswith('/\\ '):
            k, v = line[3:].split(' = ', 1)
            cur[k] = v.rstrip('\n')
        elif line.strip() and cur:
            cur[k] += ' ' + line.strip()
    if cur:
        yield cur


# ---------------------------------------------------------------- main
def known():
    """fixed entries are only history; known findings carry a pattern"""
    path = os.path.join(VERIF, 'known_findings.jsonl')
    return [json.loads(x) for x in open(path) if x.strip()] if os.path.exists(path) else []


def main():
    prop = sys.argv[1]
    suite = SUITES[prop]
    work = tempfile.mkdtemp(prefix=f'vf-{prop}-')
    try:
        code = check(prop, suite, work)
    except Dead as e:
        trouble(str(e))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def check(prop, suite, work):
    thorough = TIER == 'thorough'
    fams = suite['families']
    mods = suite.get('models', [])
    bins, nsites = build(work, {FAMILIES[f]['driver'] for f in fams} | {MODELS[m]['driver'] for m in mods if 'driver' in MODELS[m]})
    log('built', ', '.join(bins), f'({nsites} scheduling points)')

    # jobs: shards of scenarios, and models
    def shards(f, n):
        shard = FAMILIES[f].get('shard', 40) * (3 if thorough else 1)
        return [(f, lo, min(shard, n - lo)) for lo in range(0, n, shard)]

    want = {f: n * suite.get('thorough', 12) if thorough else n for f, n in fams.items()}
    jobs = [j for f, n in want.items() if 'scripts' not in FAMILIES[f] for j in shards(f, n)]
    jobs.sort(key=lambda j: j[1])
    scripted = {f: os.path.join(work, f + '.scripts') for f in fams if 'scripts' in FAMILIES[f]}
    deadline = T0 + (780 if thorough else 330)
    budget = 150000 if thorough else 40000
    tot = dict(traces=0, ok=0, undecided=0, rejected=0, transitions=0, states=0, skipped=0)
    events, byfam, kinds, deaths, bad, samples, models, wrong = 0, {}, {}, [], [], [], [], []
    distinct = set()
    lock = threading.Lock()

    def one(job):
        nonlocal events
        f, lo, n = job
        if time.time() > deadline - 20:
            with lock:
                tot['skipped'] += n
            return
        t = os.path.join(work, f'{f}.{lo}.nd')
        d = drive(bins, nsites, f, SEED, lo, n, t, FAMILIES[f].get('hang', 30), scripted.get(f))
        lines = open(t).readlines()
        v, gen, dist = [], 0, 0
        if lines:
            v, gen, dist = validate(work, f, t, budget, 600)
            if len(v) != len(lines):
                raise Dead(f'{len(v)} verdicts for {len(lines)} traces of {f}')
            rej = [i for i, x in enumerate(v) if x[1] == 'rejected'][:8]
            if rej and FAMILIES[f]['spec'] == 'BrokerTrace':
                for i, (verdict, at) in zip(rej, confirm(work, f, [lines[i] for i in rej], budget, 600)):
                    if verdict != 'budget':
                        v[i] = (v[i][0], verdict, at, v[i][3])
                    if verdict == 'ok':
                        log('pruned away though accepted:', json.loads(lines[i])['id'])
        with lock:
            deaths.extend(d)
            tot['traces'] += len(lines)
            tot['transitions'] += gen
            tot['states'] += dist
            byfam[f] = byfam.get(f, 0) + len(lines)
            for (i, verdict, at, st), line in zip(v, lines):
                tr = json.loads(line)
                evs = [e for e in tr.get('ev', []) if 'e' in e]
                events += len(evs)
                for e in evs:
                    k = e['e']
                    if k == 'in':
                        k = 'in ' + e['f']['cmd']
                    elif k == 'call':
                        k = 'call ' + e['op']
                    kinds[k] = kinds.get(k, 0) + 1
                distinct.add(hash(line))
                if len(samples) < 2 and verdict == 'ok':
                    samples.append({'trace': tr['id'], 'events': [brief(e) for e in evs[:40]] or line[:2000]})
                if verdict == 'ok':
                    tot['ok'] += 1
                elif verdict == 'budget':
                    tot['undecided'] += 1
                else:
                    tot['rejected'] += 1
                    bad.append((f, line, at))
        os.unlink(t)

    def model(name):
        m = MODELS[name]
        cfg = m['thorough'] if thorough and 'thorough' in m else m['cfg']
        opts = list(m.get('opts', []))
        dump = os.path.join(work, name + '.dump')
        if 'replay' in m:
            opts += ['-dump', dump]
        rc, out = tlc(work, m['module'], cfg, {}, 800 if thorough else 400, heap='6g',
                      workers=m.get('workers', '2'), opts=opts, dfs=False)
        st = STAT.findall(out)
        if 'Model checking completed. No error has been found' not in out:
            raise Dead(f'model {name} was not checked to the end (rc {rc}):\n' + out[-3000:])
        rec = {'module': m['module'], 'config': cfg, 'transitions': int(st[-1][0]), 'states': int(st[-1][1])}
        if 'replay' in m:
            rec['cases_replayed_into_the_code'] = replay(name, m, dump)
        with lock:
            models.append(rec)
            tot['transitions'] += int(st[-1][0])
            tot['states'] += int(st[-1][1])

    def generate(f):
        """The histories of client actions that lead to the states of a model are scripts for the real code."""
        m = FAMILIES[f]['scripts']
        cfg = m['thorough'] if thorough else m['cfg']
        dump = os.path.join(work, f + '.dump')
        printed = m.get('printed')
        rc, out = tlc(work, m['module'], cfg, {}, 400, heap='6g', workers='1', opts=[] if printed else ['-dump', dump], dfs=False)
        st = STAT.findall(out)
        if 'Model checking completed. No error has been found' not in out:
            raise Dead(f'model {cfg} was not explored to the end (rc {rc}):\n' + out[-3000:])
        all_, inner = set(), set()
        if printed:
            found = ([x.split() for x in t.split(';') if x] for t in re.findall(r'^"SCRIPT ([^"]*)"$', out, re.M))
        else:
            found = (lit(s['script']) for s in states(dump))
        for a in found:
            all_.add(json.dumps(a))
            inner.update(json.dumps(a[:i]) for i in range(len(a)))
        if not printed:
            os.unlink(dump)
        todo = sorted(all_ - inner)
        random.Random(SEED).shuffle(todo)
        n = min(want[f], len(todo))
        with open(scripted[f], 'w') as w:
            for a in todo[:n]:
                w.write(json.dumps({'nc': m.get('nc', (0, 0))[thorough], 'acts': json.loads(a)}) + '\n')
        with lock:
            models.append({'module': m['module'], 'config': cfg, 'transitions': int(st[-1][0]), 'states': int(st[-1][1]),
                           'scripts': len(todo), 'scripts_replayed_into_the_code': n})
            tot['transitions'] += int(st[-1][0])
            tot['states'] += int(st[-1][1])
        log(f'{cfg}: {st[-1][1]} states, {len(todo)} scripts, {n} to be replayed')
        return shards(f, n)

    def replay(name, m, dump):
        """Every state TLC reached is a case for the real code."""
        cases = os.path.join(work, name + '.cases')
        n = 0
        with open(cases, 'w') as w:
            for st in states(dump):
                c = m['replay'](st)
                if c is not None:
                    w.write(json.dumps(c) + '\n')
                    n += 1
        os.unlink(dump)
        out = os.path.join(work, name + '.res')
        rc, so = run([bins[m['driver']], '-test.run', 'TestReplay', '-test.timeout', '0'], 600,
                     dict(os.environ, CASES=cases, OUT=out, SEED=str(SEED), GOMAXPROCS='4'))
        last, found, done = '', [], False
        for line in open(out, errors='replace'):
            if line.startswith('at '):
                last = line[3:]
            elif line.startswith('BAD '):
                found.append((line[4:].strip(), last))
            elif line.startswith('DONE'):
                done = True
        if not done:
            found.append(('the process ' + ('hung' if rc == -9 else 'died: ' + firstcause(so)), last))
        with lock:
            for what, case in found:
                rec = {'trace': f'{name}/case', 'event': 0, 'rejected': what, 'properties': [prop]}
                wrong.append((rec, case))
        return n

    with cf.ThreadPoolExecutor(WORKERS) as ex:
        futs = {ex.submit(generate, f) for f in scripted} | {ex.submit(model, m) for m in mods}
        futs |= {ex.submit(one, j) for j in jobs}
        while futs:
            done, futs = cf.wait(futs, return_when=cf.FIRST_COMPLETED)
            for fu in done:
                for j in fu.result() or []:
                    futs.add(ex.submit(one, j))
    log(f"{tot['traces']} traces, {events} events: {tot['ok']} accepted, {tot['rejected']} rejected, "
        f"{tot['undecided']} undecided, {tot['skipped']} skipped; {tot['states']} states")

    # which properties do the rejected traces break?
    viol, others = wrong[:5], []
    for f in sorted({b[0] for b in bad}):
        mine = [b for b in bad if b[0] == f][:12]
        res = accuse(work, f, [b[1] for b in mine], [b[2] for b in mine], 4 * budget, 600)
        for (f, line, at), (verdict, ps) in zip(mine, res):
            if verdict == 'ok':
                continue
            tr = json.loads(line)
            evs = tr.get('ev', [])
            rec = {'trace': tr['id'], 'event': at, 'rejected': brief(evs[at - 1]) if at <= len(evs) else line[:300],
                   'properties': ps}
            (viol if prop in ps or not ps else others).append((rec, line))
    for d in deaths:
        rec = {'trace': f"{d['fam']}/{d['seed']}/{d['index']}", 'event': 0, 'rejected': 'the process died: ' + firstcause(d['out']),
               'properties': ['all']}
        if d['again']:
            viol.append((rec, json.dumps(d) + '\n'))
        else:
            log('a driver died once and not again:', d['out'][-1500:])
            trouble('a driver died, not reproduced')

    # known findings
    kf = [k for k in known() if k.get('status') == 'known' and k['property'] == prop]
    listed, unlisted = [], []
    for rec, line in viol:
        k = next((k for k in kf if re.search(k['match'], rec['trace'].split('/')[0] + ' ' + rec['rejected'])), None)
        (listed if k else unlisted).append((rec, line))
    for k in kf:
        print(f"KNOWN-FINDING: property={prop} {k['what']}", flush=True)

    for rec, _ in others[:5]:
        log('rejected, but on account of', ','.join(rec['properties']), ':', rec['trace'], '@', rec['event'], rec['rejected'][:200])
    shutil.rmtree(os.path.join(VERIF, 'replay', prop), ignore_errors=True)
    for i, (rec, line) in enumerate(unlisted[:5]):
        d = os.path.join(VERIF, 'replay', prop)
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f'{i}.ndjson')
        with open(path, 'w') as w:
            w.write(line)
        with open(path + '.txt', 'w') as w:
            w.write(json.dumps(rec) + '\n')
        log(f"trace {rec['trace']}: event {rec['event']} is no step of the specification: {rec['rejected'][:300]} ({','.join(rec['properties'])})")
        print(f'VIOLATION property={prop} replay={path}', flush=True)

    need = suite.get('need', [])
    missing = [k for k in need if kinds.get(k, 0) == 0]
    if not unlisted and missing:
        trouble(f'nothing of kind {missing} was exercised')
    if not unlisted and tot['ok'] == 0 and fams:
        trouble('no trace was accepted')

    ev = {'property': prop, 'tier': TIER, 'seed': SEED, 'level': 'model_checking',
          'coverage': {'states': tot['states'], 'transitions': tot['transitions'],
                       'traces_validated_against_impl': tot['ok'] + tot['rejected'],
                       'traces_recorded': tot['traces'], 'traces_undecided_within_budget': tot['undecided'],
                       'traces_not_recorded_for_lack_of_time': tot['skipped'],
                       'distinct_traces': len(distinct), 'events_recorded': events,
                       'events_by_kind': dict(sorted(kinds.items())), 'traces_by_family': byfam,
                       'models_checked_exhaustively': models, 'scheduling_points': nsites,
                       'rejected_on_account_of_other_properties': len(others),
                       'samples': samples or [{'note': 'no accepted trace'}]},
          'assumptions': suite.get('assumptions', ASSUME),
          'wall_s': round(time.time() - T0, 1), 'violations': len(unlisted)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as w:
        json.dump(ev, w, indent=1)
    log('VIOLATED' if unlisted else 'held', f'in {ev["wall_s"]} s')
    return 1 if unlisted else 0


ASSUME = ['the behaviours explored are those of seeded random scenarios under a seeded scheduler in virtual time '
          '(testing/synctest); others are not covered',
          'the in-memory network delivers bytes in order and reports failures as a TCP connection would',
          'TLC and the trace specification evaluate correctly']


def firstcause(s):
    for pat in (r'(?m)^(panic: .*)$', r'(?m)^(fatal error: .*)$', r'(HANG: .*)'):
        m = re.search(pat, s)
        if m:
            return m.group(1)
    return s.strip()[:200]


def brief(e):
    if 'e' not in e:
        return json.dumps(e)[:400]
    f = e.get('f')
    s = ' '.join(f'{k}={v}' for k, v in e.items() if k not in ('e', 'f'))
    if f:
        s += f" {f['cmd']} {' '.join(k + ':' + v for k, v in f['h'])} [{f['b'][:40]}]"
    return (e['e'] + ' ' + s)[:400]


if __name__ == '__main__':
    main()
