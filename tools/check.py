#!/usr/bin/env python3
"""Decides one property: runs programs on the library as it is in /repo and lets TLC judge the recorded
executions by the specification (spec/Trace.tla), then checks the models of that property.

usage: check.py ID quick|thorough        check
       check.py replay FILE              run one program again and show what it breaks
"""
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
BUILD = os.path.join(ROOT, 'build')
SPEC = os.path.join(ROOT, 'spec')
TLA = '/opt/veriftools/tla'
sys.path.insert(0, HERE)
import plans                                              # noqa: E402


class Broken(Exception):
    """the check itself could not run"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), executable='/bin/bash' if isinstance(cmd, str) else None,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


# ----- building

def build_exec(kinds):
    """builds the executor from /repo's working tree; kinds: debug, release, big, and checked: debug with a
    current compiler, which inserts checks of pointers and of the preconditions of unsafe calls"""
    build_locale()
    out = {}
    procs = []
    for k in kinds:
        target = os.path.join(BUILD, 'target-' + k)
        flags = {'debug': '', 'release': '--release', 'big': '--features big-endian-varlen', 'checked': ''}[k]
        cmd = '. %s/env.sh; %s cd %s/exec && CARGO_TARGET_DIR=%s $CARGO build --offline -q %s' % (
            HERE, 'use_current;' if k == 'checked' else '', ROOT, target, flags)
        procs.append((k, subprocess.Popen(['bash', '-c', cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        out[k] = os.path.join(target, 'release' if k == 'release' else 'debug', 'pgn-exec')
    for k, p in procs:
        o, _ = p.communicate()
        if p.returncode and k == 'checked':
            out[k] = None               # not this compiler's code: the other builds judge it
        elif p.returncode:
            raise Broken('building the executor (%s) failed:\n%s' % (k, o[-3000:]))
    return out


def build_locale():
    """a locale that writes a decimal comma: every program runs under it (libc's conversions follow it, the crate must not)"""
    d = os.path.join(BUILD, 'locale')
    if not os.path.isdir(os.path.join(d, 'de_DE.UTF-8')):
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, 'tmp%d' % os.getpid())
        if sh('localedef -i de_DE -f UTF-8 %s' % tmp).returncode == 0:
            os.rename(tmp, os.path.join(d, 'de_DE.UTF-8'))
    return d


def build_java():
    d = os.path.join(BUILD, 'java')
    src = [os.path.join(ROOT, 'java', n + '.java') for n in ('BigInt', 'Recording')]
    made = os.path.join(d, 'made')
    if not os.path.exists(made) or os.path.getmtime(made) < max(os.path.getmtime(s) for s in src):
        os.makedirs(d, exist_ok=True)
        r = sh(['javac', '-d', d, '-cp', TLA + '/tla2tools.jar'] + src)
        if r.returncode:
            raise Broken('javac failed:\n' + r.stdout)
        open(made, 'w').close()
    return d


def tlc(module, cfg, env=None, workers=8, heap='12g', timeout=800, extra=(), override=True, name=None):
    """runs TLC in spec/; returns its output"""
    meta = os.path.join(BUILD, 'tlc', '%s-%d' % (name or os.path.basename(module), os.getpid()))
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    cp = (build_java() + ':' if override else '') + TLA + '/tla2tools.jar:' + TLA + '/CommunityModules-deps.jar'
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss256m', '-DTLA-Library=' + SPEC, '-cp', cp, 'tlc2.TLC',
           '-metadir', meta, '-workers', str(workers), '-noGenerateSpecTE', '-config', cfg] + list(extra) + [module]
    try:
        r = sh(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), timeout=timeout)
    except subprocess.TimeoutExpired as e:
        raise Broken('TLC did not end in %d s on %s' % (timeout, module))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.stdout


def tlc_error(out):
    k = [m.start() for m in re.finditer(r'^Error:', out, re.M)]
    return '\n'.join(out[i:i + 700] for i in k) + '\n...\n' + out[-1500:]


# ----- running programs

class Run:
    """the events of a program, and where its blocks start"""
    def __init__(self):
        self.lines = []      # program lines
        self.starts = []     # index of the first line of each block

    def add(self, block):
        self.starts.append(len(self.lines))
        self.lines += block


def execute(exe, blocks, work, secs=20, max_crashes=12):
    """runs blocks on 8 processes; returns [(block, [event, ...])] as JSON lines"""
    shards = [[] for _ in range(8)]
    for i, b in enumerate(blocks):
        shards[i % 8].append(i)
    os.makedirs(work, exist_ok=True)
    result = [None] * len(blocks)
    crashes = [0]

    def shard(n, ids):
        lines, owner, first = [], [], []
        for i in ids:
            first.append(len(lines))
            for l in blocks[i]:
                lines.append(l)
                owner.append(i)
        prog = os.path.join(work, 'p%d' % n)
        log = os.path.join(work, 'e%d' % n)
        open(prog, 'w').write('\n'.join(lines) + '\n')
        open(log, 'w').close()
        for i in ids:
            result[i] = []
        start, seen = 0, 0
        while start < len(lines):
            p = subprocess.run([exe, prog, log, str(start)], env=dict(os.environ, OP_SECONDS=str(secs), LOCPATH=os.path.join(BUILD, 'locale')),
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            done = start
            with open(log) as f:
                f.seek(seen)
                text = f.read()
            if text and not text.endswith('\n'):
                text = text[:text.rfind('\n') + 1]
            seen = os.path.getsize(log)
            for l in text.splitlines():
                result[owner[done]].append(l)
                done += 1
            if p.returncode == 0 and done >= len(lines):
                break
            if done >= len(lines):
                # died while giving everything back at the end: charged to the last call
                done = len(lines) - 1
            w = lines[done].split(' ')
            result[owner[done]].append(json.dumps({'i': done, 'op': 'crash', 'of': w[0], 'k': 'crash', 'rc': p.returncode, 'ch': []}))
            crashes[0] += 1
            # the rest of that block is given up
            b = owner[done]
            start = done + 1
            while start < len(lines) and owner[start] == b:
                start += 1
            if crashes[0] >= max_crashes:
                for j in range(start, len(lines)):
                    if result[owner[j]] == []:
                        result[owner[j]] = None
                break
        os.remove(prog)
        os.remove(log)

    import threading
    ts = [threading.Thread(target=shard, args=(n, ids)) for n, ids in enumerate(shards) if ids]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return result


BROKEN = re.compile(r'^<<"BROKEN", (\d+), "([^"]*)", \{([^}]*)\}', re.M | re.S)


def judge(blocks, events, work, big=False, timeout=800, chunk=None):
    """lets TLC judge the events; returns [(block, index in block, op, {properties})] and statistics"""
    os.makedirs(work, exist_ok=True)
    log = os.path.join(work, 'log.ndjson')
    starts, where, size, n = [], [], 0, 0
    total = sum(len(l) for ev in events if ev for l in ev) or 1
    per = max(total // 160, 1)
    with open(log, 'w') as f:
        acc = per
        for b, ev in enumerate(events):
            if not ev:
                continue
            if acc >= per or size + sum(map(len, ev)) > 20 * per:
                starts.append(n + 1)
                acc = 0
            for j, l in enumerate(ev):
                n += 1
                f.write(re.sub(r'^\{"i": ?\d+', '{"i":%d' % n, l) + '\n')
                where.append((b, j))
                acc += len(l)
    if not n:
        return [], {'events': 0, 'states': 0, 'chunks': 0}
    # registers must be empty where a chunk starts: blocks define all they use
    st = os.path.join(work, 'starts.ndjson')
    open(st, 'w').write(json.dumps(starts) + '\n')
    out = tlc('Trace.tla', 'Trace.cfg', env={'LOG': log, 'STARTS': st, 'BIG_ENDIAN': '1' if big else '0'}, timeout=timeout, name='trace')
    m = re.search(r'^\d+ states generated, (\d+) distinct states found, 0 states left', out, re.M)
    if 'No error has been found' not in out or not m or int(m.group(1)) != n + 1:
        raise Broken('TLC did not get through the log (%s of %d positions):\n%s' % (m and m.group(1), n + 1, tlc_error(out)))
    if 'Loading BAdd operator override' not in out:
        raise Broken('the Java replacement of BigInt was not loaded')
    bad = []
    for i, op, tags in BROKEN.findall(out):
        b, j = where[int(i) - 1]
        bad.append((b, j, op, set(re.findall(r'"(C\d\d)"', tags))))
    if out.count('"BROKEN"') != len(bad):
        raise Broken('output of TLC not understood:\n' + out[-3000:])
    return sorted(bad, key=lambda x: x[:2]), {'events': n, 'states': int(m.group(1)), 'chunks': len(starts)}


# ----- known findings

def known_findings():
    """{property: [(key, text)]}; a finding is identified by the last operation and its operands"""
    out = {}
    p = os.path.join(ROOT, 'known-findings.txt')
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r'finding: property=(C\d\d) key=(\S+) (.*)', l)
        if m:
            out.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
    return out


def key_of(block, j):
    import hashlib
    return hashlib.sha256('\n'.join(block[:j + 1]).encode()).hexdigest()[:16]


# ----- a check

def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    plan = plans.PLANS[pid]
    work = os.path.join(BUILD, 'work-%s-%d' % (pid, os.getpid()))
    replay_dir = os.path.join(ROOT, 'evidence', 'replay')
    os.makedirs(replay_dir, exist_ok=True)
    cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': [], 'operations': {}, 'models': []}
    violations, known = [], []
    findings = known_findings().get(pid, [])
    deadline = t0 + (plan.thorough_seconds if tier == 'thorough' else 800)

    def absorb(blocks, ev, bad, build):
        """counts what was executed and keeps the violations of this property"""
        cov['traces_validated_against_impl'] += sum(1 for e in ev if e)
        for e in ev:
            for l in e or []:
                op = l[l.index('"op"') + 4:].split('"', 2)[1]
                cov['operations'][op] = cov['operations'].get(op, 0) + 1
        for b in range(0, len(blocks), max(1, len(blocks) // 2)):
            if ev[b] and len(cov['samples']) < 9:
                cov['samples'].append({'program': [l[:300] for l in blocks[b][:40]], 'build': build, 'events': [l[:400] for l in ev[b][:40]][-3:]})
        seen = set()
        for b, j, op, tags in bad:
            if pid not in tags or b in seen:
                continue
            seen.add(b)
            key = key_of(blocks[b], j)
            hit = [t for k, t in findings if k == key]
            if hit:
                if hit[0] not in known:
                    known.append(hit[0])
                continue
            if len(violations) >= 5:
                break
            path = os.path.join(replay_dir, '%s-%d.json' % (pid, len(violations)))
            json.dump({'property': pid, 'build': build, 'key': key, 'program': blocks[b], 'line': j, 'op': op,
                       'event': (ev[b][j] if j < len(ev[b]) else '')[:20000]}, open(path, 'w'), indent=1)
            violations.append(path)
        return violations

    def from_models():
        for m in plan.models(tier):
            before = {'states': 0, 'transitions': 0}
            for res in m.run(sys.modules[__name__], os.path.join(work, 'm'), seed, tier, deadline):
                for k in before:
                    cov[k] += res[k] - before[k]
                    before[k] = res[k]
                if res['report'] not in cov['models']:
                    cov['models'].append(res['report'])
                yield res['blocks'], res['events'], res['bad'], m.build
                if tier == 'thorough' and time.time() > deadline:
                    break

    def from_programs():
        runs = plan.runs(tier)
        exes = build_exec(sorted({r.build for r in runs}))
        runs = [r for r in runs if exes[r.build]]
        todo = [(r, iter(r.programs(seed, tier, r.build == 'big'))) for r in runs]
        while todo:
            for t in list(todo):
                r, it = t
                blocks = next(it, None)
                if blocks is None or (tier == 'thorough' and time.time() > deadline):
                    todo.remove(t)
                    continue
                ev = execute(exes[r.build], blocks, os.path.join(work, 'x'), secs=plan.op_seconds)
                bad, st = judge(blocks, ev, os.path.join(work, 'j'), big=r.build == 'big')
                cov['states'] += st['states']
                cov['transitions'] += st['events']
                yield blocks, ev, bad, r.build

    try:
        build_java()
        for source in (from_models, from_programs):
            for got in source():
                if absorb(*got):
                    break
            if violations:
                break
    finally:
        shutil.rmtree(work, ignore_errors=True)
    for t in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, t))
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': plan.assumptions, 'wall_s': round(time.time() - t0, 1), 'violations': len(violations)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
    for v in violations:
        print('VIOLATION property=%s replay=%s' % (pid, v))
    print('%s %s: %d calls in %d programs judged, %d violations, %.0f s' %
          (pid, tier, cov['transitions'], cov['traces_validated_against_impl'], len(violations), time.time() - t0))
    return 1 if violations else 0


def replay(path):
    d = json.load(open(path))
    blocks = [d['program']]
    work = os.path.join(BUILD, 'work-replay-%d' % os.getpid())
    exes = build_exec([d.get('build', 'debug')])
    ev = execute(exes[d.get('build', 'debug')], blocks, work)
    bad, _ = judge(blocks, ev, work, big=d.get('build') == 'big')
    shutil.rmtree(work, ignore_errors=True)
    for b, j, op, tags in bad:
        print('line %d: %s' % (j, blocks[b][j][:300]))
        print('  breaks ' + ' '.join(sorted(tags)))
        print('  ' + ev[b][j][:1500])
    return 1 if bad else 0


def main():
    try:
        if sys.argv[1] == 'replay':
            return replay(sys.argv[2])
        return check(sys.argv[1], sys.argv[2])
    except Broken as e:
        print('ERROR: %s' % e)
        return 2


if __name__ == '__main__':
    sys.exit(main())
