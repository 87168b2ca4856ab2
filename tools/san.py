#!/usr/bin/env python3
"""C22: run the harness' workload under Miri, AddressSanitizer with leak
detection and ThreadSanitizer. The verdict is the tools'.

Usage: san.py C22 [--quick|--thorough] [--seed N] [--out PREFIX]
"""
import json, os, re, shutil, signal, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

H = '/verif/harness'
T = 'x86_64-unknown-linux-gnu'
REPORTS = re.compile('|'.join([
    r'error: Undefined Behavior', r'error: memory leaked', r'Data race detected',
    r'ERROR: AddressSanitizer', r'ERROR: LeakSanitizer', r'WARNING: ThreadSanitizer', r'ERROR: ThreadSanitizer',
    r'unsafe precondition\(s\) violated', r'FV-INVALID-STRING',
]))
# Limits of the tools rather than of the program under test
LIMITS = re.compile(r'LeakSanitizer has encountered a fatal error|unsupported operation|stack-overflow|has overflowed its stack|out.of.memory|FATAL: ThreadSanitizer: unexpected memory mapping')

def opts():
    o = {'seed': int(os.environ.get('VERIF_SEED') or 1), 'thorough': os.environ.get('VERIF_TIER') == 'thorough', 'out': '/verif/evidence/C22'}
    a = sys.argv[2:]
    while a:
        x = a.pop(0)
        if x == '--quick': o['thorough'] = False
        elif x == '--thorough': o['thorough'] = True
        elif x == '--seed': o['seed'] = int(a.pop(0))
        elif x == '--out': o['out'] = a.pop(0)
        else: sys.exit('san.py: unknown argument ' + x)
    return o

ENV = {k: v for k, v in os.environ.items() if k not in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTUP_TOOLCHAIN', 'MIRIFLAGS', 'CARGO_BUILD_TARGET')}
ENV.update(CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', XDG_CACHE_HOME=H + '/target/cache')

def build(name, toolchain, args, flags='', sub='build'):
    """Have the binary built from /repo's current tree"""
    for root, ds, _ in os.walk(f'{H}/target/{name}'):
        for d in ds:
            if os.path.basename(root) == '.fingerprint' and d.startswith('firrtl-ast-'):
                shutil.rmtree(os.path.join(root, d), ignore_errors=True)
    env = dict(ENV)
    if flags:
        env['RUSTFLAGS'] = flags
    p = subprocess.run(['cargo', toolchain, *sub.split(), '--offline', '--locked', '--target-dir', f'target/{name}', *args],
                       cwd=H, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return name, p.returncode, p.stdout

stop = threading.Event()

def run(job):
    """Run one instrumented process; (name, status, output, statistics)"""
    name, cmd, env, limit = job
    e = dict(ENV)
    e.update(env)
    p = subprocess.Popen(cmd, cwd=H, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    end = time.time() + limit
    while True:
        try:
            out, _ = p.communicate(timeout=1)
            rc = p.returncode
            break
        except subprocess.TimeoutExpired:
            # Once there is a report, there is no use in waiting for more
            if time.time() > end or stop.is_set():
                os.killpg(p.pid, signal.SIGKILL)
                out, _ = p.communicate()
                rc = None
                break
    out = out.decode('utf-8', 'replace')
    if REPORTS.search(out) and 'stack-overflow' not in out and 'LeakSanitizer has encountered a fatal error' not in out:
        stop.set()
    stats = {}
    for l in out.splitlines():
        if l.startswith('FV-SAN '):
            stats = json.loads(l[7:])
    return name, rc, out, stats

def main():
    o = opts()
    t0 = time.time()
    seed, th = o['seed'], o['thorough']
    os.makedirs(os.path.dirname(o['out']), exist_ok=True)
    replay = o['out'] + '.violation.txt'
    for f in (replay, o['out'] + '.json'):
        if os.path.exists(f):
            os.remove(f)
    texts = f'{H}/target/san-texts'
    shutil.rmtree(texts, ignore_errors=True)
    os.makedirs(texts)

    # Native first: it makes the texts, and shows that the tree compiles at all
    name, rc, out = build('native', '+stable', [])
    if rc != 0:
        print(out[-3000:], file=sys.stderr)
        print('san.py: build failed', file=sys.stderr)
        sys.exit(3)
    nproc = 8
    per = 90 if th else 6
    n = nproc * per
    native = f'{H}/target/native/debug/fv'
    if subprocess.run([native, 'san-texts', str(seed), str(n), texts], env=ENV).returncode != 0:
        print('san.py: no texts', file=sys.stderr)
        sys.exit(3)
    with ThreadPoolExecutor(4) as ex:
        fs = [
            ex.submit(build, 'asan', '+nightly', ['--target', T], '-Zsanitizer=address'),
            ex.submit(build, 'tsan', '+nightly', ['--target', T, '-Zbuild-std'], '-Zsanitizer=thread'),
            # Building is all but free for `miri run`, which has no way to only build
            ex.submit(build, 'miri', '+nightly', ['--', 'list'], '', 'miri run'),
        ]
        for f in fs:
            name, rc, out = f.result()
            if rc != 0 and not REPORTS.search(out):
                print(out[-3000:], file=sys.stderr)
                print(f'san.py: {name} build failed', file=sys.stderr)
                sys.exit(3)
    print(f'san.py: built, {time.time() - t0:.0f} s', file=sys.stderr)

    left = (840 if th else 640) - (time.time() - t0)
    asan, tsan = (f'{H}/target/{k}/{T}/debug/fv' for k in ('asan', 'tsan'))
    jobs = []
    for k in range(nproc):
        # Another schedule in each process, and preemption at any basic block
        flags = f'-Zmiri-disable-isolation -Zmiri-seed={seed * 1000 + k} -Zmiri-preemption-rate={[0.01, 0.05, 0.2, 0.01][k % 4]}'
        if k % 2:
            flags += ' -Zmiri-tree-borrows'
        jobs.append((f'miri {k}', ['cargo', '+nightly', 'miri', 'run', '--offline', '--locked', '--target-dir', 'target/miri', '--',
                                  'miri', str(seed + k), texts, str(k * per), str((k + 1) * per)], {'MIRIFLAGS': flags}, left))
    m = 4 if th else 2
    rounds, cases = ('1500', '2500') if th else ('150', '80')
    for k in range(m):
        jobs.append((f'asan {k}', [asan, 'san', str(seed * 100 + k), rounds, 'big', cases], {'ASAN_OPTIONS': 'detect_leaks=1:detect_stack_use_after_return=1'}, left))
        jobs.append((f'tsan {k}', [tsan, 'san', str(seed * 100 + 50 + k), rounds, 'big', cases], {'TSAN_OPTIONS': 'halt_on_error=1:second_deadlock_stack=1'}, left))
    bad, done, weak = [], {}, []
    with ThreadPoolExecutor(len(jobs) if not th else 12) as ex:
        for name, rc, out, stats in ex.map(run, jobs):
            if 'LeakSanitizer has encountered a fatal error' in out:
                # No ptrace here: go without leak detection
                j = next(j for j in jobs if j[0] == name)
                weak.append(name + ': no leak detection')
                name, rc, out, stats = run((j[0], j[1], {'ASAN_OPTIONS': 'detect_leaks=0:detect_stack_use_after_return=1'}, 300))
            if REPORTS.search(out) and not ('stack-overflow' in out):
                bad.append((name, rc, out))
            elif rc is not None and rc < 0 and -rc in (signal.SIGSEGV, signal.SIGBUS, signal.SIGILL) and 'overflowed its stack' not in out:
                bad.append((name, rc, out))
            elif rc == 0:
                d = done.setdefault(name.split()[0], {'processes': 0})
                d['processes'] += 1
                for k, v in stats.items():
                    d[k] = d.get(k, 0) + v
            else:
                weak.append(f'{name}: ' + ('time limit' if rc is None else f'exit {rc}: {out[-300:]}'))
    total = lambda k: sum(d.get(k, 0) for d in done.values())
    ops = total('operations') + total('texts') + total('shared') + total('cases')
    missing = [k for k in ('miri', 'asan', 'tsan') if k not in done]
    ev = {
        'property': 'C22', 'tier': 'thorough' if th else 'quick', 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': ops,
            'distinct_nontrivial': total('distinct'),
            'rule': 'operations on generated circuits, texts and hostile bytes from several threads at once, on shared and private circuits, each under an instrumented build; non-trivial: yields a string of more than 20 bytes; distinct by content within a process',
            'per_tool': done,
            'without_answer': weak,
            'samples': [open(f'{texts}/{k}.fir').read() for k in range(3)],
        },
        'assumptions': ['Miri, AddressSanitizer, LeakSanitizer and ThreadSanitizer report what they are made to detect',
                        'stack exhaustion is not counted as undefined behaviour'],
        'wall_s': round(time.time() - t0, 1), 'violations': len(bad),
    }
    with open(o['out'] + '.json', 'w') as f:
        json.dump(ev, f, indent=1)
    if bad:
        with open(replay, 'w') as f:
            for name, rc, out in bad:
                i = REPORTS.search(out)
                i = max(0, i.start() - 1000) if i else max(0, len(out) - 4000)
                job = next(j for j in jobs if j[0] == name)
                f.write(f'== {name}: {" ".join(job[1])} with {job[2]}, status {rc}\n{out[i:i + 8000]}\n')
        for name, rc, out in bad:
            i = REPORTS.search(out)
            print(f'{name}: ' + (out[i.start():].splitlines()[0] if i else f'status {rc}'))
        print(f'VIOLATION property=C22 replay=evidence/{os.path.basename(replay)}')
        sys.exit(1)
    if missing:
        print(f'san.py: no process completed under {missing}: {weak}', file=sys.stderr)
        sys.exit(3)
    print(f'C22: held: {ops} operations under {total("processes")} instrumented processes, {total("threads")} threads, {time.time() - t0:.0f} s' + (f'; {weak}' if weak else ''))
    sys.exit(0)

if __name__ == '__main__':
    main()
