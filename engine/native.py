"""Builds the library of /repo's current tree with sanitizers together with the witness driver, and runs it."""
import os, shutil, subprocess, sys, time, tempfile, struct, glob
from concurrent.futures import ThreadPoolExecutor
import cfront

NAT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'native')
SAN = ['-fsanitize=address,bounds,alignment,null,signed-integer-overflow,integer-divide-by-zero,shift', '-fno-sanitize-recover=all']


class BuildError(Exception):
    pass


def build(base):
    """base: prepared tree (cfront.prepare); returns the driver's path"""
    out = os.path.join(base, 'out')
    jobs = []
    for f in sorted(glob.glob(os.path.join(out, 'src', '*.c'))):
        if f.endswith('digraph_debug.c'):
            continue
        o = os.path.join(base, os.path.basename(f) + '.o')
        jobs.append((o, ['clang', '-c', '-std=c99', '-g', '-O1', '-w', '-DNDEBUG', '-include', os.path.join(NAT, 'wrap.h'), '-I' + out] + SAN + [f, '-o', o]))
    for f in ('common.cpp', 'props.cpp'):
        o = os.path.join(base, f + '.o')
        jobs.append((o, ['clang++', '-c', '-std=c++17', '-g', '-O1', '-w', '-I' + out, '-I' + NAT, '-fsanitize=address', os.path.join(NAT, f), '-o', o]))
    jobs.sort(key=lambda j: 'props' not in j[0])

    def run(j):
        p = subprocess.run(j[1], cwd=out, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return p.returncode, p.stdout.decode(errors='replace'), j
    with ThreadPoolExecutor(8) as ex:
        for rc, o, j in ex.map(run, jobs):
            if rc != 0:
                raise BuildError('%s\n%s' % (' '.join(j[1]), o[-3000:]))
    drv = os.path.join(base, 'drv')
    p = subprocess.run(['clang++', '-fsanitize=address,undefined'] + [j[0] for j in jobs] + ['-o', drv, '-lm'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise BuildError('link\n' + p.stdout.decode(errors='replace')[-3000:])
    return drv


ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4000:quarantine_size_mb=16', UBSAN_OPTIONS='print_stacktrace=1')


def run_many(drvs, prop, seed, seconds, workers, base, hard=None, stop=None, offset=0):
    """drvs: list of (config, path); -> dict(cases, distinct, samples, fail=None or dict)"""
    procs = []
    t0 = time.time()
    for w in range(workers):
        cfg, d = drvs[w % len(drvs)]
        hf = os.path.join(base, 'hash.%d.%d' % (offset, w))
        of = open(os.path.join(base, 'drv.%d.%d.out' % (offset, w)), 'wb+')
        p = subprocess.Popen([d, prop, str(seed), str(offset + w), str(workers), str(seconds), '0', hf], stdout=of, stderr=subprocess.STDOUT, env=ENV, cwd=base)
        procs.append([p, of, hf, cfg, w])
    fail = None
    live = list(procs)
    hard = hard or seconds + 330
    while live:
        for x in list(live):
            if x[0].poll() is not None:
                live.remove(x)
                if x[0].returncode != 0 and fail is None:
                    x[1].seek(0); txt = x[1].read().decode(errors='replace')
                    fail = dict(rc=x[0].returncode, out=txt, config=x[3])
                    for y in live:
                        y[0].kill()
        if not live:
            break
        if time.time() - t0 > hard or (stop is not None and stop()):
            for y in live:
                y[0].kill()
            for y in live:
                y[0].wait()
            break
        time.sleep(0.05)
    cases = 0; hs = set(); samples = []
    for p, of, hf, cfg, w in procs:
        p.wait(); of.seek(0)
        for l in of.read().decode(errors='replace').split('\n'):
            if l.startswith('DONE '):
                cases += int(l.split('cases=')[1].split()[0])
            if l.startswith('SAMPLE ') and len(samples) < 6:
                samples.append(l[7:][:500])
        of.close()
        if os.path.exists(hf):
            b = open(hf, 'rb').read()
            hs.update(struct.unpack('<%dQ' % (len(b) // 8), b[:len(b) // 8 * 8]))
    return dict(cases=cases, distinct=len(hs), samples=samples, fail=fail, seconds=time.time() - t0)
