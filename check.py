#!/usr/bin/env python3
"""Runs the check of one property against the working tree of /repo.

usage: check.py C01 [quick|thorough]

exit 0: held on everything that was observed; exit 1: VIOLATION line printed; exit 2: no verdict.
"""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, 'harness')
EVIDENCE = os.path.join(VERIF, 'evidence')
REPO_PKG = 'github.com/flachnetz/dd-zipkin-proxy'
HARNESS_PKG = 'verif/harness'

# properties whose check is built with the race detector
RACE = {'C01', 'C08', 'C10', 'C11', 'C12', 'C13', 'C22', 'C23', 'C24', 'C25', 'C26', 'C28', 'C29', 'C30', 'C31'}

# properties whose check is run without the race detector as well: with it, sync.Pool forgets every fourth value
PLAIN_TOO = {'C08', 'C10'}

# properties whose check uses the hooks in /repo (build tag verif)
HOOKS = {'C26'}

# wall clock watchdog of a single attempt, its firing is never a violation (seconds)
LIMIT = {'quick': 380, 'thorough': 4000}


def goenv(scratch):
    env = dict(os.environ)
    env.update({
        'HOME': '/root', 'PATH': '/opt/veriftools/go1.27.3/bin:' + os.environ.get('PATH', '/usr/bin:/bin'),
        'GOTOOLCHAIN': 'local', 'GOPROXY': 'off', 'GOWORK': 'off', 'GOFLAGS': '-mod=mod',
        'GOPATH': '/root/go', 'GOMODCACHE': '/root/go/pkg/mod', 'GOCACHE': '/root/.cache/go-build',
        'TMPDIR': scratch,
    })
    return env


def modfile(scratch):
    """go.mod and go.sum are copied, so that a build never changes those of /verif."""
    for name in ('go.mod', 'go.sum'):
        shutil.copy(os.path.join(HARNESS, name), os.path.join(scratch, name))
    return '-modfile=' + os.path.join(scratch, 'go.mod')


def build(prop, scratch, race):
    binary = os.path.join(scratch, 'check.bin')
    # the hooks of /repo give access to some inner parts. Everything else is still checked if they do not fit any more.
    for tags in (['-tags=verif'], []) if prop in HOOKS else ([],):
        cmd = ['go', 'test', '-c', '-vet=off', '-buildvcs=false', modfile(scratch), '-o', binary] + tags
        if race:
            cmd.append('-race')
        cmd.append('./props/' + prop.lower())
        p = subprocess.run(cmd, cwd=HARNESS, env=goenv(scratch), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0 and os.path.exists(binary):
            return binary
        if tags:
            print('the hooks of the verif tag do not build, going on without them')
    print('build failed:\n' + p.stdout[-6000:])
    return None


def frames(block):
    """function names of the frames of a go stack, innermost first"""
    out = []
    for line in block.splitlines():
        if line.startswith(('\t', ' ' * 6)) or not line.strip():
            continue
        m = re.match(r'\s*([A-Za-z0-9_./\-~%*()\[\],· ]+?)\((.*)\)$', line)
        if m:
            out.append(line.strip())
    return out


def owner(block):
    """says whose code the innermost relevant frame of a stack belongs to"""
    for f in frames(block):
        if f.startswith('created by'):
            break
        if f.startswith(REPO_PKG):
            return 'repo'
        if f.startswith(HARNESS_PKG) or f.startswith('main.'):
            return 'harness'
    return None


def normalized(block):
    fs = [re.sub(r'\(.*', '', f) for f in frames(block) if f.startswith(REPO_PKG)]
    return '|'.join(fs[:2])


def races(scratch):
    """data race reports, split into (violations, harness problems)"""
    found, other, seen = [], [], set()
    for name in sorted(os.listdir(scratch)):
        if not name.startswith('race.'):
            continue
        text = open(os.path.join(scratch, name), errors='replace').read()
        for block in text.split('=================='):
            if 'WARNING: DATA RACE' not in block:
                continue
            # access stacks come first, then the places where the goroutines were created
            access = []
            for part in block.split('\n\n'):
                head = part.strip().splitlines()[0] if part.strip() else ''
                if 'WARNING: DATA RACE' in head:
                    part = '\n'.join(part.strip().splitlines()[1:])
                    head = part.strip().splitlines()[0] if part.strip() else ''
                if re.match(r'\s*(Previous )?(atomic )?(read|write) (at|of)', head, re.I):
                    access.append('\n'.join(part.splitlines()[1:]))
            owners = [owner(a) for a in access]
            if 'repo' in owners:
                sig = 'race:' + ' <> '.join(sorted(normalized(a) for a in access))
                if sig not in seen:
                    seen.add(sig)
                    found.append({'sig': sig, 'message': 'data race', 'witness': block.strip()[:8000]})
            else:
                other.append(block.strip()[:4000])
    return found, other


def crash(output):
    """a crash of the process that was caused by the proxy's code"""
    m = re.search(r'^(panic: .*|fatal error: .*|SIG\w+: .*|unexpected fault address.*)$', output, re.M)
    if not m:
        return None, None
    rest = output[m.start():]
    head = m.group(1)
    if head.startswith('panic: test timed out') or head.startswith('panic: deadlock:'):
        return None, rest[:6000]
    for block in rest.split('\n\n'):
        if not re.match(r'goroutine \d+', block.strip()) and 'goroutine ' not in block:
            continue
        who = owner(block)
        if 'stack overflow' in head:
            # it is the recursion that counts, not the function which happened to be the last
            fs = frames(block)
            mine = sum(f.startswith(REPO_PKG) for f in fs)
            who = 'repo' if mine > len(fs) / 2 else 'harness'
        if who == 'repo':
            sig = 'crash:' + re.sub(r'0x[0-9a-f]+|\d+', 'N', head)[:120] + ' @ ' + normalized(block).split('|')[0]
            return {'sig': sig, 'message': 'the process crashed: ' + head, 'witness': rest[:8000]}, None
        return None, rest[:6000]
    return None, rest[:6000]


def attempt(prop, tier, seed, binary, scratch, race):
    run = tempfile.mkdtemp(prefix='run', dir=scratch)
    out, journal = os.path.join(run, 'report.json'), os.path.join(run, 'journal')
    env = goenv(run)
    env.update({
        'VERIF_OUT': out, 'VERIF_JOURNAL': journal, 'VERIF_SEED': str(seed), 'VERIF_TIER': tier,
        'VERIF_SCRATCH': run, 'VERIF_HARNESS': HARNESS, 'VERIF_MODFILE': modfile(scratch),
        'GORACE': 'halt_on_error=0 history_size=3 log_path=' + os.path.join(run, 'race'),
        'GOTRACEBACK': 'all',
    })
    log = os.path.join(run, 'output')
    with open(log, 'wb') as f:
        p = subprocess.Popen([binary, '-test.timeout=0', '-test.run=^Test$'], cwd=run, env=env, stdin=subprocess.DEVNULL,
                             stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        timed_out = False
        try:
            p.wait(LIMIT[tier])
        except subprocess.TimeoutExpired:
            timed_out = True
            p.send_signal(signal.SIGQUIT)
            try:
                p.wait(10)
            except subprocess.TimeoutExpired:
                pass
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()

    size = os.path.getsize(log)
    with open(log, 'rb') as f:
        head = f.read(400_000)
        if size > 800_000:
            f.seek(-400_000, 2)
        output = (head + f.read()).decode(errors='replace')

    res = {'violations': [], 'inconclusive': [], 'report': None, 'output': output}
    if os.path.exists(out):
        res['report'] = json.load(open(out))
        res['violations'] += res['report'].get('violations') or []
        res['inconclusive'] += res['report'].get('inconclusive') or []

    found, other = races(run)
    res['violations'] += found
    res['inconclusive'] += ['race in the harness:\n' + o for o in other]

    if timed_out:
        res['inconclusive'].append('watchdog: no result within %d s' % LIMIT[tier])
    elif res['report'] is None or p.returncode not in (0, 1, 66):
        v, why = crash(output)
        if v:
            if os.path.exists(journal):
                v['input'] = open(journal, 'rb').read(2_000_000).decode('latin-1')
            res['violations'].append(v)
        else:
            res['inconclusive'].append('the run ended with code %s and without a result\n%s' % (p.returncode, why or output[-3000:]))
    elif p.returncode == 1 and not found and not other:
        res['inconclusive'].append('test failed outside of the oracle:\n' + output[-3000:])
    shutil.rmtree(run, ignore_errors=True)
    return res


def merged(a, b):
    """adds what was observed by two runs"""
    if not a or not b:
        return a or b
    c = dict(b)
    c['evaluations'] = a.get('evaluations', 0) + b.get('evaluations', 0)
    # the runs have the same cases
    c['distinct_nontrivial'] = max(a.get('distinct_nontrivial', 0), b.get('distinct_nontrivial', 0))
    c['counters'] = {k: (a.get('counters') or {}).get(k, 0) + (b.get('counters') or {}).get(k, 0)
                     for k in set(a.get('counters') or {}) | set(b.get('counters') or {})}
    return c


def known_findings():
    out = []
    path = os.path.join(VERIF, 'known_findings.md')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\S+) sig=(\S+) (.*)', line)
            if m:
                out.append(m.groups())
    return out


def main():
    prop = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in LIMIT:
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    race = prop in RACE
    began = time.time()

    os.makedirs(EVIDENCE, exist_ok=True)
    evidence = os.path.join(EVIDENCE, prop + '.json')
    if os.path.exists(evidence):
        os.remove(evidence)

    scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try:
        notes, attempts, report = [], 0, None
        for raced in [True, False] if prop in PLAIN_TOO else [race]:
            binary = build(prop, scratch, raced)
            if binary is None:
                return 2
            for n in range(2):
                attempts += 1
                res = attempt(prop, tier, seed, binary, scratch, raced)
                if res['violations'] or not res['inconclusive']:
                    break
                notes.append('attempt %d was inconclusive: %s' % (attempts, ' / '.join(res['inconclusive'])[:600]))
                print(notes[-1])
                if time.time() - began > LIMIT[tier]:
                    break
            report = merged(report, res['report'])
            if res['violations'] or res['inconclusive']:
                break
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    known = [(sig, what) for p, sig, what in known_findings() if p == prop]
    fresh, listed = [], set()
    for v in res['violations']:
        hit = [k for k in known if k[0] == v['sig']]
        if hit:
            listed.add(hit[0])
        else:
            fresh.append(v)

    report = report or {}
    coverage = {
        'evaluations': report.get('evaluations', 0),
        'distinct_nontrivial': report.get('distinct_nontrivial', 0),
        'rule': report.get('rule', ''),
        'samples': report.get('samples') or [],
        'observed': report.get('counters') or {},
        'race_detector': 'with and without' if prop in PLAIN_TOO else race,
        'attempts': attempts,
    }
    doc = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': coverage,
        'assumptions': report.get('assumptions') or [],
        'wall_s': round(time.time() - began, 2),
        'violations': len(fresh),
    }
    if notes:
        doc['notes'] = notes
    text = json.dumps(doc, indent=1)
    if len(text) > 60_000:
        coverage['samples'] = [str(s)[:2000] for s in coverage['samples'][:2]]
        text = json.dumps(doc, indent=1)
    with open(evidence, 'w') as f:
        f.write(text + '\n')

    print('%s %s seed=%d: %d evaluations, %d distinct, %.1f s' % (
        prop, tier, seed, coverage['evaluations'], coverage['distinct_nontrivial'], doc['wall_s']))
    for name, value in sorted(coverage['observed'].items()):
        print('  observed %s: %d' % (name, value))

    for _, what in sorted(listed):
        print('KNOWN-FINDING: property=%s %s' % (prop, what))

    if fresh:
        replays = os.path.join(EVIDENCE, 'replay')
        os.makedirs(replays, exist_ok=True)
        path = os.path.join(replays, '%s.json' % prop)
        with open(path, 'w') as f:
            json.dump({
                'property': prop, 'tier': tier, 'seed': seed,
                'command': 'VERIF_SEED=%d python3 check.py %s %s' % (seed, prop, tier),
                'violations': fresh, 'output': res['output'][-20000:],
            }, f, indent=1)
        for v in fresh[:5]:
            print('  %s: %s' % (v['sig'], str(v['message'])[:600]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1

    if res['inconclusive']:
        print('INCONCLUSIVE: ' + '\n'.join(res['inconclusive'])[:6000])
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
