#!/usr/bin/env python3
"""Runs one check: run.py <property> [quick|thorough] | run.py setup | run.py replay <file>."""
import json, os, subprocess, sys, time, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'checks'))
import build, gen, registry

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:alloc_dealloc_mismatch=0',
           TSAN_OPTIONS='halt_on_error=1:exitcode=66', LC_ALL='C.UTF-8')


def known_findings(pid):
    out = {}
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith('finding: property=%s ' % pid):
                continue
            rest = line[len('finding: property=%s ' % pid):]
            sig, _, text = rest.partition(' :: ')
            out[sig[len('sig='):] if sig.startswith('sig=') else sig] = text
    return out


def run_harness(exe, mode, tier, seconds, workers=8, hang=60, wrap=()):
    tmp = tempfile.mkdtemp(prefix='mc.', dir=os.path.join(HERE, '.build'))
    try:
        pre = os.path.join(tmp, 'o')
        r = subprocess.run([*wrap, exe, mode, '--tier', tier, '--workers', str(workers), '--out', pre,
                            '--seconds', str(seconds), '--hang', str(hang), '--seed', os.environ.get('VERIF_SEED', '1')],
                           env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=tmp)
        if r.returncode:
            raise build.BuildError('harness %s %s exited %d: %s' % (exe, mode, r.returncode, r.stdout.decode(errors='replace')[-2000:]))
        parts, viol = [], json.load(open(pre + '.crash.json'))
        for v in viol:
            try:
                v['what'] += ': ' + open('%s.%d.log' % (pre, v['shard']), errors='replace').read()[-2500:]
            except OSError:
                pass
        for s in range(workers):
            f = '%s.%d.json' % (pre, s)
            if os.path.exists(f):
                parts.append(json.load(open(f)))
        for p in parts:
            viol += p['violations']
        return parts, viol
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay_once(exe, mode, tier, v, full=False, timeout=300):
    """Re-runs one case alone. True if it fails again in the same way."""
    tmp = tempfile.mkdtemp(prefix='mcr.', dir=os.path.join(HERE, '.build'))
    try:
        pre = os.path.join(tmp, 'o')
        cmd = [exe, mode, '--tier', tier, '--workers', str(v['nshards']), '--shard', str(v['shard']), '--out', pre, '--seconds', '800']
        if not full:
            cmd += ['--only', str(v['idx'])]
        if v['sig'] == 'hang' and not full:
            timeout = 60  # a case takes milliseconds; the exploration had given up on it after 90 s
        try:
            r = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=tmp, timeout=timeout)
        except subprocess.TimeoutExpired:
            return v['sig'] == 'hang', 'timeout'
        if r.returncode:
            return v['sig'] == 'crash', r.stdout.decode(errors='replace')[-3000:]
        d = json.load(open('%s.%d.json' % (pre, v['shard'])))
        for x in d['violations']:
            if x['sig'] == v['sig']:
                return True, x['what']
        return False, 'not reproduced'
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def build_check(c, refused=None, tier='quick'):
    """Builds every executable of a check; returns [(exe, stage)]. What the generators do not make, or make wrongly, is added to refused."""
    if c.get('make'):
        stages, bad = c['make'](tier)
        if refused is not None:
            refused += bad
        c = dict(c, stages=stages)
    return [(s.get('exe') or build.link(s['name'], s['units'], s.get('variant', 'plain'), s.get('libs', ())), s) for s in c['stages']]


def main():
    os.makedirs(build.BUILD, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if sys.argv[1] == 'setup':
        return setup()
    if sys.argv[1] == 'replay':
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    return check(pid, tier)


def setup():
    """Every check compiles what it needs itself (its copy of the sandbox is fresh): only see that the tools are there."""
    for tool in ('g++', 'ar'):
        if not shutil.which(tool):
            print('missing', tool)
            return 1
    print('%d checks' % len(registry.CHECKS))
    return 0


def check(pid, tier):
    t0 = time.time()
    c = registry.CHECKS[pid]
    ev_path = os.path.join(HERE, 'evidence', pid + '.json')
    try:
        if c.get('prepare'):
            c['prepare']()
        refused = []
        stages = build_check(c, refused, tier)
    except build.BuildError as e:
        print('BUILD ERROR', e)
        return 2
    t_build = time.time() - t0
    known = known_findings(pid)
    tot = {'states': 0, 'transitions': 0, 'traces': 0, 'cases': 0}
    counters, outcomes, samples, notes, caps, stage_info = {}, {}, [], {}, [], []
    viols = [{'sig': r.sig, 'what': r.what, 'input': r.sig, 'count': 1, 'mode': 'make', 'exe': None} for r in refused]
    for exe, s in stages:
        t1 = time.time()
        secs = s.get('seconds', {}).get(tier, 200 if tier == 'quick' else 1500)
        parts, v = run_harness(exe, s['mode'], tier, secs, s.get('workers', 8), s.get('hang', 90))
        st = {'states': 0, 'transitions': 0, 'traces': 0, 'cases': 0}
        for p in parts:
            for k in st:
                st[k] += p[k]
            for k, n in p['counters'].items():
                counters[k] = max(counters.get(k, 0), n) if k.startswith('most ') else counters.get(k, 0) + n
            for k, n in p['outcomes'].items():
                outcomes[k] = outcomes.get(k, 0) + n
            samples += p['samples']
            notes.update(p['notes'])
            if p['capped']:
                caps.append('%s: %s' % (s['mode'], p['cap_note']))
        for k in st:
            tot[k] += st[k]
        stage_info.append(dict(st, mode=s['mode'], variant=s.get('variant', 'plain'), wall_s=round(time.time() - t1, 2)))
        for x in v:
            x['exe'], x['mode'] = exe, s['mode']
        viols += v
    # one representative per signature
    rep = {}
    for v in viols:
        k = v['sig']
        if k not in rep or len(v['input']) < len(rep[k]['input']):
            n = rep[k]['count'] if k in rep else 0
            rep[k] = dict(v, count=v['count'] + n)
        else:
            rep[k]['count'] += v['count']
    rc, new = 0, []
    for k, v in sorted(rep.items(), key=lambda kv: len(kv[1]['input'])):
        if k in known:
            print('KNOWN-FINDING: property=%s %s [%s; %d cases, e.g. %s]' % (pid, known[k], k, v['count'], v['input'][:200].replace('\n', '\\n')))
        else:
            new.append(v)
    nrep = 0
    unconfirmed = 0
    for v in new[:8]:
        if nrep and time.time() - t0 > 500:
            break  # one confirmed violation is enough
        ok, what = (True, '') if v['mode'] == 'make' else replay_once(v['exe'], v['mode'], tier, v)
        if not ok:
            ok, what = replay_once(v['exe'], v['mode'], tier, v, full=True)
        if not ok:
            unconfirmed += 1
            print('UNCONFIRMED %s: %s / %s' % (v['sig'], v['what'][:1500], what))
            continue
        os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
        path = os.path.join('evidence', 'replay', '%s-%d.json' % (pid, nrep))
        nrep += 1
        json.dump(dict({k: v[k] for k in v if k != 'exe'}, property=pid, tier=tier), open(os.path.join(HERE, path), 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  signature: %s (%d cases)\n  input: %s\n  %s' % (v['sig'], v['count'], v['input'][:1500], v['what'][:2500]))
        rc = 1
    if unconfirmed and rc == 0:
        rc = 2
    cov = {'states': tot['states'], 'transitions': tot['transitions'], 'traces_validated_against_impl': tot['traces'],
           'evaluations': tot['cases'], 'samples': samples[:6] or ['(none)'],
           'exhaustive': not caps, 'caps': caps, 'stages': stage_info, 'counters': counters,
           'distinct_outcomes': len(outcomes), 'outcomes': dict(sorted(outcomes.items(), key=lambda kv: -kv[1])[:40]),
           'notes': notes, 'bounds': c.get('bounds', ''), 'build_s': round(t_build, 2),
           'known_findings_seen': sorted(k for k in rep if k in known)}
    json.dump({'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': c.get('level', 'model_checking'),
               'coverage': cov, 'assumptions': c.get('assumptions', []), 'wall_s': round(time.time() - t0, 2),
               'violations': len(new)}, open(ev_path, 'w'), indent=1)
    print('%s %s: states=%d transitions=%d traces=%d cases=%d outcomes=%d%s wall=%.1fs (build %.1fs)' % (
        pid, tier, tot['states'], tot['transitions'], tot['traces'], tot['cases'], len(outcomes),
        ' CAPPED' if caps else '', time.time() - t0, t_build))
    return rc


def replay(path):
    d = json.load(open(path))
    c = registry.CHECKS[d['property']]
    if c.get('prepare'):
        c['prepare']()
    refused = []
    stages = build_check(c, refused, d['tier'])
    for r in refused:
        if r.sig == d['sig']:
            print('%s\n%s\nREPRODUCED' % (r.sig, r.what))
            return 1
    for exe, s in stages:
        if s['mode'] == d['mode']:
            ok, what = replay_once(exe, s['mode'], d['tier'], d)
            print('input: %s\n%s\n%s' % (d['input'], 'REPRODUCED' if ok else 'NOT REPRODUCED', what))
            return 1 if ok else 0
    return 2


if __name__ == '__main__':
    sys.exit(main())
