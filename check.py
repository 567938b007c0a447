#!/usr/bin/env python3
"""Decide one property:  check.py PROPERTY [--tier quick|thorough]

Builds the symbolic executor, writes the property's harnesses, compiles them together with the crates
in /repo to LLVM IR, executes that IR symbolically (every branch, assertion and panic decided by an SMT
solver), replays counterexamples and sample paths natively, and writes evidence/<PROPERTY>.json.

exit 0  the property holds on everything within the bounds
exit 1  VIOLATION line printed; the counterexample reproduced natively
exit 2  no answer (build failure, inconclusive query, unsupported construct, replay mismatch)
"""
import fcntl
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
BUILD = os.path.join(HERE, 'build')
sys.path.insert(0, os.path.join(HERE, 'harness'))
import props  # noqa: E402

T0 = time.time()


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


class NoAnswer(Exception):
    pass


def env(**kw):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith('CARGO_PROFILE') or k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_TARGET', 'RUSTC_WRAPPER'):
            del e[k]
    e['CARGO_NET_OFFLINE'] = 'true'
    e['RUSTUP_TOOLCHAIN'] = 'nightly'
    e['CARGO_TERM_COLOR'] = 'never'
    e.update(kw)
    return e


def build_symx():
    t = os.path.join(BUILD, 'symx-target')
    p = subprocess.run(['cargo', 'build', '--release', '--offline', '-q'], cwd=os.path.join(HERE, 'symx'),
                       env=env(CARGO_TARGET_DIR=t), capture_output=True, text=True)
    if p.returncode:
        raise NoAnswer('building symx failed:\n' + p.stderr[-3000:])
    return os.path.join(t, 'release', 'symx')


class Rejected(Exception):
    def __init__(self, what, text):
        self.what, self.text = what, text


def lock(name):
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, name + '.lock'), 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def rejected_form(stderr, gen_rs):
    """Did the compiler reject a line of assembly text of the documented syntax?"""
    errs = re.findall(r'^error(?:\[E\d+\])?: (.*)\n(?:.*\n)*?\s*--> (\S+?):(\d+):', stderr, re.M)
    lines = open(gen_rs).read().split('\n')
    hits = []
    for msg, f, ln in errs:
        if os.path.abspath(f) == gen_rs and 'monoasm!' in lines[int(ln) - 1]:
            hits.append((msg, lines[int(ln) - 1].strip()))
    return hits


def cargo_harness(pid, gendir, kind, oc):
    """kind: 'll' or 'native'; oc: overflow checks on/off"""
    src = os.path.join(HERE, 'harness')
    tgt = os.path.join(BUILD, 'target-' + kind)
    if props.PROPS[pid].get('macro'):
        src = os.path.join(src, 'mac')
        tgt += '-mac'
    if kind != 'll':
        src = os.path.join(src, 'native')
    out = os.path.join(BUILD, pid)
    e = env(CARGO_TARGET_DIR=tgt, SYMX_GEN=gendir, CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS='true' if oc else 'false')
    with lock('cargo-' + kind):
        # the dependency versions are those of /repo
        shutil.copy(os.path.join(REPO, 'Cargo.lock'), os.path.join(src, 'Cargo.lock'))
        if kind == 'll':
            for r, _, fs in os.walk(tgt):
                for f in fs:
                    if f.startswith('harness') and f.endswith('.ll'):
                        os.remove(os.path.join(r, f))
            # make sure the harness crate itself is recompiled
            cmd = ['cargo', 'rustc', '--release', '--offline', '--', '--emit=llvm-ir', '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp',
                   '--cfg', 'run_' + hashlib.sha1(str(time.time()).encode()).hexdigest()[:12]]
        else:
            cmd = ['cargo', 'build', '--release', '--offline']
        p = subprocess.run(cmd, cwd=src, env=e, capture_output=True, text=True)
        if p.returncode:
            hits = rejected_form(p.stderr, os.path.join(gendir, 'gen.rs'))
            if hits:
                # is it /repo that builds and the text that is rejected?
                q = subprocess.run(['cargo', 'build', '--release', '--offline', '-p', 'monoasm', '-p', 'monoasm_macro'], cwd=src, env=e,
                                   capture_output=True, text=True)
                if q.returncode == 0:
                    raise Rejected(hits, p.stderr)
            raise NoAnswer('building the harness failed:\n' + p.stderr[-6000:])
        if kind == 'll':
            found = [os.path.join(r, f) for r, _, fs in os.walk(tgt) for f in fs if f.startswith('harness') and f.endswith('.ll')]
            if len(found) != 1:
                raise NoAnswer('expected one IR file, found %r' % found)
            dst = os.path.join(out, 'harness%s.ll' % ('' if oc else '-release'))
            shutil.move(found[0], dst)
        else:
            dst = os.path.join(out, 'replay%s' % ('' if oc else '-release'))
            shutil.copy(os.path.join(tgt, 'release', 'replay'), dst)
    return dst


def case_text(h, w):
    t = ['harness ' + h]
    t += ['in %d %d %s' % tuple(i) for i in w['inputs']]
    t += ['base ' + b for b in w['bases']]
    t += ['mem %d %d %d' % tuple(m) for m in w['mem']]
    return '\n'.join(t) + '\n'


def run_case(binary, path):
    try:
        p = subprocess.run([binary, path], capture_output=True, text=True, timeout=120, errors='replace')
    except subprocess.TimeoutExpired:
        return 'timeout', [], ''
    obs = [int(x) for x in re.findall(r'^OBS (\d+)$', p.stdout, re.M)]
    m = re.findall(r'^RESULT (.*)$', p.stdout, re.M)
    pan = '; '.join(re.findall(r'^PANIC (.*(?:\n(?!OBS|RESULT|PANIC).*)*)', p.stdout, re.M))
    if m:
        return m[-1], obs, pan
    if p.returncode < 0:
        return 'signal %d' % -p.returncode, obs, pan
    return 'no result (exit %d)' % p.returncode, obs, pan


def is_violation(res):
    return res.startswith('assert ') and res != 'assert 9000' or res in ('panic', 'nopanic') or res in ('signal 11', 'signal 7', 'signal 4', 'signal 6')


def known(pid):
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) harness=(\S+) kind=(\S+) id=(\d+) (.*)', l.strip())
            if m and m.group(1) == pid:
                out.append(m.groups())
    return out


def demangle(names):
    """short, readable names of the encoded functions of the repository"""
    out = set()
    for n in names:
        if n.startswith('h_'):
            continue
        parts = []
        i = 0
        b = n
        for m in re.finditer(r'(?<![A-Za-z0-9])?(\d+)_?([A-Za-z_]\w*)', b):
            pass
        # v0 mangling: collect the <len><ident> components
        i = 0
        while i < len(b):
            m = re.match(r'(\d+)(_?)', b[i:])
            if m and i > 0 and not m.group(1).startswith('0'):
                k = int(m.group(1))
                j = i + len(m.group(0))
                ident = b[j:j + k]
                if len(ident) == k and re.fullmatch(r'[A-Za-z_]\w*', ident):
                    parts.append(ident)
                    i = j + k
                    continue
            i += 1
        if parts and ('monoasm' in parts or n.startswith('_R') and 'monoasm' in n):
            out.add('::'.join(parts))
    return sorted(out)


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    rnd = random.Random(seed)
    P = props.PROPS[pid]
    out = os.path.join(BUILD, pid)
    os.makedirs(out, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    evp = os.path.join(HERE, 'evidence', pid + '.json')
    if os.path.exists(evp):
        os.remove(evp)
    rdir = os.path.join(out, 'replay-cases')
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir)

    def evidence(cov, nviol):
        json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
                   'assumptions': props.COMMON_ASSUMPTIONS + P.get('assumptions', []),
                   'wall_s': round(time.time() - T0, 2), 'violations': nviol}, open(evp, 'w'), indent=1)

    symx = build_symx()
    log('symx ready')
    gendir = os.path.join(out, 'gen')
    p = subprocess.run([sys.executable, os.path.join(HERE, 'harness', 'gen.py'), pid, tier, gendir], capture_output=True, text=True)
    if p.returncode:
        raise NoAnswer('gen.py: ' + p.stderr)
    nh = int(p.stdout.strip())
    log('%d harnesses' % nh)

    runs = [(True, 'z3 -in')]
    if tier == 'thorough':
        runs += [(False, 'z3 -in'), (True, 'cvc5 --incremental --lang smt2')]
    else:
        runs += [tuple(r) for r in P.get('quick_runs', [])]
    bins = {}
    tot = dict(states=0, transitions=0, panics=0, cut=0, forks=0, asserts=0, asserts_solver=0, queries=0, sat=0, unsat=0, cached=0)
    solver_s = 0.0
    slowest = 0.0
    funcs = set()
    errors = []
    viols = []   # reproduced
    unrep = []   # not reproduced
    knowns = set()
    samples_out = []
    validated = 0
    aids = set()
    try:
        for oc, solver in runs:
            tag = '%s/%s' % ('overflow-checks' if oc else 'release', solver.split()[0])
            ll = cargo_harness(pid, gendir, 'll', oc)
            log('%s: IR %.1f MB' % (tag, os.path.getsize(ll) / 1e6))
            res = os.path.join(out, 'result.json')
            lim = P.get('harness_s', 300 if tier == 'quick' else 1500)
            p = subprocess.run([symx, '--ll', ll, '--out', res, '--prefix', 'h_', '--jobs', str(os.cpu_count() or 8), '--solver', solver,
                                '--query-ms', '60000', '--harness-s', str(lim), '--samples', '3', '--max-viol', '3',
                                '--grace-s', '0' if known(pid) else '30'],
                               capture_output=True, text=True)
            if p.returncode not in (0, 1) or not os.path.exists(res):
                raise NoAnswer('symx failed: ' + (p.stdout + p.stderr)[-3000:])
            d = json.load(open(res))
            os.remove(res)
            hs = d['harnesses'] if isinstance(d, dict) else d
            anyv = any(h['violations'] for h in hs)
            if len(hs) != nh:
                errors.append('%s: %d harnesses in the IR, %d generated' % (tag, len(hs), nh))
            for h in hs:
                tot['states'] += h['paths_ok'] + h['paths_panic']
                tot['panics'] += h['paths_panic']
                tot['cut'] += h['paths_cut']
                tot['transitions'] += h['instructions']
                for k in ('forks', 'asserts', 'asserts_solver', 'queries', 'sat', 'unsat', 'cached'):
                    tot[k] += h[k]
                solver_s += h['solver_s']
                slowest = max(slowest, h['slowest_query_s'])
                funcs |= set(h['funcs'])
                aids |= set(h['assert_ids'])
                for e in h['errors']:
                    errors.append('%s: %s: %s' % (tag, h['name'], e))
                if not anyv and not h['violations'] and not h['errors'] and (h['paths_ok'] + h['paths_panic'] < 1 or h['asserts'] < 1):
                    errors.append('%s: %s is vacuous (%d paths, %d assertions)' % (tag, h['name'], h['paths_ok'], h['asserts']))
            log('%s: %d paths, %d instructions, %d queries, %.1f s solver' % (tag, tot['states'], tot['transitions'], tot['queries'], solver_s))
            allv = []
            for h in hs:
                for v in h['violations']:
                    if v['kind'] == 'assert' and v['id'] == 9000:
                        errors.append('%s: %s: the harness does not fit this code (cursor of a page not found)' % (tag, h['name']))
                    else:
                        allv.append((h['name'], v))
            if oc not in bins:
                bins[oc] = cargo_harness(pid, gendir, 'native', oc)
            rb = bins[oc]
            # counterexamples: one per harness first, then the rest
            for n, (h, v) in enumerate(allv[:60]):
                cp = os.path.join(rdir, 'cex-%d.case' % len(os.listdir(rdir)))
                open(cp, 'w').write('# %s: %s (%s)\n# run: %s %s\n' % (v['kind'], v['msg'], tag, rb, cp) + case_text(h, v))
                r, obs, pan = run_case(rb, cp)
                item = dict(harness=h, kind=v['kind'], id=v['id'], msg=v['msg'], native=r, panic=pan, inputs=v['inputs'], case=cp)
                if is_violation(r):
                    kf = [k for k in known(pid) if k[1] == h and k[2] == v['kind'] and int(k[3]) == v['id']]
                    if kf:
                        knowns.add('KNOWN-FINDING: property=%s %s' % (pid, kf[0][4]))
                    else:
                        viols.append(item)
                else:
                    unrep.append(item)
            # the same paths natively: the encoding and the machine must agree
            smp = [(h['name'], s) for h in hs for s in h['samples']]
            rnd.shuffle(smp)
            smp = smp[:200 if tier == 'quick' else 1500]
            if not viols:
                def val(x):
                    i, (h, s) = x
                    cp = os.path.join(rdir, 'sample-%d.case' % i)
                    open(cp, 'w').write(case_text(h, s))
                    r, obs, pan = run_case(rb, cp)
                    want = 'panic-ok' if s['panic'] else 'ok'
                    wobs = [int(o) for o in s['obs']]
                    os.remove(cp)
                    if r != want or obs != wobs:
                        return 'replay of a path of %s disagrees: native %s %s, symbolic %s %s, inputs %s' % (h, r, obs, want, wobs, s['inputs'])
                    return None
                with ThreadPoolExecutor(8) as ex:
                    for (h, s), e in zip(smp, ex.map(val, enumerate(smp))):
                        if e:
                            errors.append(e)
                        else:
                            validated += 1
                for h, s in smp[:3]:
                    samples_out.append({'harness': h, 'inputs': s['inputs'], 'panic': s['panic'], 'observed': s['obs']})
                log('%s: %d paths replayed natively' % (tag, validated))
            if viols:
                break
    except Rejected as e:
        rp = os.path.join(rdir, 'rejected.txt')
        open(rp, 'w').write('Assembly text of the documented syntax no longer compiles:\n' +
                            '\n'.join('%s\n    %s' % (l, m) for m, l in e.what) + '\n\n' + e.text)
        print('%d accepted forms are rejected at compile time, e.g. %s: %s' % (len(e.what), e.what[0][1][:300], e.what[0][0]))
        evidence({'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': [e.what[0][1]],
                  'note': 'the encoding could not be generated: the code under test rejects a supported form'}, 1)
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1

    cov = {
        'states': tot['states'], 'transitions': tot['transitions'], 'traces_validated_against_impl': validated,
        'samples': samples_out or [dict(harness=v['harness'], inputs=v['inputs']) for v in viols[:3]],
        'meaning': 'states = complete symbolic paths (each covers every value of its inputs that follows it); transitions = IR instructions executed symbolically',
        'harnesses': nh, 'paths_ending_in_a_required_or_allowed_panic': tot['panics'], 'forks': tot['forks'],
        'assertions_checked': tot['asserts'], 'assertions_needing_the_solver': tot['asserts_solver'], 'assertion_kinds': len(aids),
        'queries': tot['queries'], 'queries_sat': tot['sat'], 'queries_unsat': tot['unsat'], 'queries_answered_from_cache': tot['cached'],
        'solver_seconds': round(solver_s, 2), 'slowest_query_seconds': round(slowest, 3),
        'configurations': ['%s with %s' % ('overflow checks on' if o else 'overflow checks off', s) for o, s in runs],
        'functions_encoded': demangle(funcs), 'functions_encoded_total': len(funcs),
        'bounds': P['bounds'], 'outside_the_claim': P.get('outside', ''),
    }
    evidence(cov, len(viols))
    for k in sorted(knowns):
        print(k)
    for v in viols[:10]:
        print('counterexample in %s: %s; native replay: %s %s; inputs %s' % (v['harness'], v['msg'], v['native'], v['panic'][:300], v['inputs']))
    if viols:
        print('VIOLATION property=%s replay=%s' % (pid, viols[0]['case']))
        return 1
    for u in unrep[:10]:
        print('NOT REPRODUCED: %s: %s; native replay: %s; inputs %s; %s' % (u['harness'], u['msg'], u['native'], u['inputs'], u['case']))
    for e in errors[:20]:
        print('ERROR:', e)
    if unrep or errors:
        return 2
    log('property %s holds within the bounds' % pid)
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except NoAnswer as e:
        print('NO ANSWER:', e)
        rc = 2
    sys.exit(rc)
