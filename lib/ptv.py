#!/usr/bin/env python3
"""Runner: contract-based deductive verification of /repo's C sources with CBMC.

  ptv.py check P01 [--tier quick|thorough]     decide one property
  ptv.py replay FILE                           replay a recorded violation
See DESIGN.md for what the stages mean.
"""
import concurrent.futures as cf
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PTV_REPO', '/repo')
LIB = os.path.join(VERIF, 'lib')
INCS = ['-I' + LIB, '-I' + REPO + '/include', '-I' + REPO + '/judy-1.0.5/src', '-I' + REPO + '/src']
PYEXE = '/opt/vp/venv/bin/python' if os.path.exists('/opt/vp/venv/bin/python') else sys.executable
PYINC = '/usr/include/python3.12'


def asan_lib():
    return subprocess.run(['gcc', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()


DEFS = ['-D_GNU_SOURCE', '-DNDEBUG', '-DPTV']
GUARD = '-DPOINTLESS_PTV'
PROCS = set()
PLOCK = threading.Lock()
NCPU = int(os.environ.get('PTV_JOBS', '8'))


class Deadline(Exception):
    pass


def run(cmd, timeout, cwd=None, mem_gb=12, env=None):
    """run a command in its own process group; returns (rc, stdout+stderr, secs); rc None on timeout"""
    t0 = time.time()
    if timeout <= 0:
        return None, '', 0.0
    with tempfile.TemporaryFile() as f:
        p = subprocess.Popen(['bash', '-c', 'ulimit -v %d; exec "$@"' % (mem_gb * 1024 * 1024) if mem_gb else 'exec "$@"', 'x'] + cmd,
                             stdout=f, stderr=subprocess.STDOUT, cwd=cwd, start_new_session=True, env=env)
        with PLOCK:
            PROCS.add(p)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
            rc = None
        with PLOCK:
            PROCS.discard(p)
        f.seek(0)
        out = f.read().decode('utf8', 'replace')
    return rc, out, time.time() - t0


def meta_of(path):
    s = open(path).read()
    m = re.search(r'/\*PTV(.*?)PTV\*/', s, re.S)
    if not m:
        raise SystemExit('no PTV metadata in ' + path)
    d = json.loads(m.group(1))
    for k in ('contracts', 'complete', 'bounded'):
        out = []
        for e in d.get(k, []):
            vs = e.get('variants')
            if not vs:
                out.append(e)
            for v in vs or []:
                out.append(dict(e, id=e['id'] + '.' + re.sub(r'\W+', '_', v), defs=e.get('defs', []) + v.split()))
        if out:
            d[k] = out
    return d


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.deadline = self.t0 + float(os.environ.get('PTV_DEADLINE', '780' if tier == 'quick' else '6000'))
        base = os.environ.get('PTV_WORK', os.path.join(VERIF, 'build'))
        os.makedirs(base, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=prop + '.', dir=base)
        self.out = os.path.join(VERIF, 'out', prop)
        os.makedirs(self.out, exist_ok=True)
        self.jobs = []
        # the loop contract hooks of /repo default to nothing; a unit defines those it proves
        ids = set()
        for f in glob.glob(REPO + '/src/*.c') + glob.glob(REPO + '/python/*.c') + glob.glob(REPO + '/include/pointless/*.h'):
            ids |= set(re.findall(r'POINTLESS_(LOOP|GHOST)\((\w+)', open(f, errors='replace').read()))
        open(os.path.join(self.work, 'ptv_loops.h'), 'w').write(''.join('#ifndef PTV_%s_%s\n#define PTV_%s_%s(...)\n#endif\n' % (a, b, a, b) for a, b in sorted(ids)))
        self.nlocks, self.nbuilt = {}, {}
        self.violations = []   # (summary, replay path, has_input)
        self.log = []

    def left(self):
        return self.deadline - time.time()

    # ---------------------------------------------------------------- CBMC
    @staticmethod
    def enforce_name(e):
        return Check.subst(e, e['enforce'])

    @staticmethod
    def subst(e, x):
        return x.format(**dict(d.split('=', 1) for d in e.get('defs', []) if '=' in d))

    def cbmc_job(self, unit, meta, e, kind):
        """kind: 'contract' | 'complete' | 'bounded'. returns a result dict"""
        jid = '%s.%s' % (os.path.basename(unit)[:-2], e['id'])
        r = dict(id=jid, kind=kind, harness=e['harness'], unit=unit, entry=e, status='undecided', obligations=0, discharged=0,
                 failed=[], secs=0.0, note='', backend=e.get('backend', 'cbmc/sat(cadical|minisat)'), bound=e.get('bound', ''))
        if self.tier == 'quick' and e.get('thorough'):
            r['status'] = 'skipped'
            return r
        w = os.path.join(self.work, jid + '.' + kind)
        os.makedirs(w, exist_ok=True)
        tmo = min(e.get('timeout', 200 if kind == 'contract' else 240) * (6 if self.tier == 'thorough' else 1), self.left())
        srcs = [unit] + [os.path.join(REPO, s) for s in e.get('src', meta.get('src', []))]
        defs = ['-D' + d for d in meta.get('defs', []) + e.get('defs', []) + (e.get('tdefs', []) if self.tier == 'thorough' else [])]
        extra_defs = [GUARD] if e.get('loops') else []
        cc = ['goto-cc', '-o', w + '/a.gb', '--function', e['harness'], '-DPTV_CBMC', '-I' + os.path.dirname(unit), '-I' + self.work] + DEFS + INCS + defs + extra_defs + meta.get('cflags', []) + e.get('cflags', []) + srcs
        rc, out, s = run(cc, min(120, tmo))
        r['secs'] += s
        if rc != 0:
            r['note'] = 'compile: ' + out[-1500:]
            return r
        gb = w + '/a.gb'
        prune = e.get('prune', [])
        if prune:
            # functions the harness must never reach: their bodies become assert(false); assume(false)
            cmd = ['goto-instrument']
            for x in prune:
                cmd += ['--remove-function-body', x]
            rc, out, s = run(cmd + [gb, w + '/p1.gb'], min(60, self.left()))
            r['secs'] += s
            if rc != 0 or 'not found' in out:
                r['note'] = 'prune: ' + out[-800:]
                return r
            rc, out, s = run(['goto-instrument', '--generate-function-body', '|'.join(prune), '--generate-function-body-options', 'assert-false-assume-false', w + '/p1.gb', w + '/p2.gb'], min(60, self.left()))
            r['secs'] += s
            if rc != 0:
                r['note'] = 'prune: ' + out[-800:]
                return r
            gb = w + '/p2.gb'
        unwind = e.get('unwind')
        if self.tier == 'thorough' and 'tunwind' in e:
            unwind = e['tunwind']
        if kind == 'contract':
            cmd = ['goto-instrument', '--dfcc', e['harness'], '--enforce-contract-rec' if e.get('rec') else '--enforce-contract', self.enforce_name(e)]
            for x in e.get('replace', []):
                cmd += ['--replace-call-with-contract', self.subst(e, x)]
            if e.get('loops'):
                cmd += ['--apply-loop-contracts']
            cmd += e.get('iflags', []) + [gb, w + '/b.gb']
            rc, out, s = run(cmd, min(120, self.left()))
            r['secs'] += s
            if rc != 0:
                r['note'] = 'instrument: ' + out[-1500:]
                return r
            gb = w + '/b.gb'
        cmd = ['cbmc', gb, '--verbosity', '8', '--object-bits', str(e.get('object_bits', 10))] + (['--drop-unused-functions'] if kind != 'contract' else [])
        if unwind:
            cmd += ['--unwind', str(unwind), '--unwinding-assertions']
            if kind == 'contract':
                # loops of the contracts library, bounded by the number of assignable objects
                cmd += ['--unwindset', '__CPROVER_contracts_write_set_check_assigns_clause_inclusion.0:%d' % max(12, int(unwind))]
        if e.get('unwindset'):
            cmd += ['--unwindset', e['unwindset']]
        if not e.get('malloc_fail', meta.get('malloc_fail')):
            cmd += ['--no-malloc-may-fail']
        if not e.get('std', True):
            cmd += ['--no-standard-checks']
        cmd += e.get('flags', meta.get('flags', []))
        cmd += {'cvc5': ['--cvc5'], 'z3': ['--z3'], 'cadical': ['--sat-solver', 'cadical']}.get(e.get('solver', ''), [])
        if e.get('solver'):
            r['backend'] = 'cbmc/' + e['solver']
        else:
            r['backend'] = 'cbmc/sat'
        rc, out, s = run(cmd, min(tmo, self.left()))
        r['secs'] += s
        if rc is None:
            r['note'] = 'timeout after %.0f s' % s
            return r
        res, cur = None, ''
        for line in out.splitlines():
            if line.startswith('** Results'):
                res = []
                continue
            if res is None:
                continue
            m = re.match(r'(\S+) function (\S+)$', line)
            if m:
                cur = m.group(1)
            m = re.match(r'\[(\S+)\] (?:file (\S+) )?(?:line (\d+) )?(.*): (SUCCESS|FAILURE|ERROR|UNKNOWN)$', line)
            if m:
                res.append(dict(property=m.group(1), description=m.group(4), status=m.group(5), sourceLocation=dict(file=m.group(2) or cur, line=m.group(3))))
        nobody = sorted(set(re.findall(r'no body for (?:function|callee) (\S+)', out)))
        nobody = [n.strip("'`") for n in nobody]
        bad = [n for n in nobody if n not in meta.get('nobody', []) + e.get('nobody', []) and not n.startswith(('nondet_', '__CPROVER'))]
        r['nobody'] = nobody
        if not res:
            r['note'] = 'no result: ' + out[-1500:]
            return r
        reach_needed, reach_ok, unw, fails = 0, 0, [], []
        for p in res:
            d = p.get('description', '')
            if d == 'ptv_reach':
                reach_needed += 1
                reach_ok += p['status'] == 'FAILURE'
                continue
            r['obligations'] += 1
            if p['status'] == 'SUCCESS':
                r['discharged'] += 1
            elif p['status'] == 'FAILURE':
                if 'unwinding assertion' in d or 'recursion unwinding' in d:
                    unw.append(p)
                else:
                    fails.append(p)
            else:
                r['note'] += 'status %s for %s; ' % (p['status'], p['property'])
        r['reach'] = '%d/%d' % (reach_ok, reach_needed)
        if fails:
            if bad:
                r['note'] += 'functions without a body: %s; ' % bad
                # a failure with an unknown callee is undecided unless it replays
            r['status'] = 'failed'
            r['unknown_callee'] = bad
            r['failed'] = [dict(property=p['property'], description=p.get('description', ''),
                                where='%s:%s' % (p.get('sourceLocation', {}).get('file', '?'), p.get('sourceLocation', {}).get('line', '?'))) for p in fails]
            r['cmd'], r['fails'], r['w'] = cmd, fails, w
        elif unw:
            r['note'] += 'unwinding bound too small (%s); ' % unw[0]['property']
        elif bad:
            r['note'] += 'functions without a body: %s; ' % bad
        elif r['discharged'] != r['obligations'] or not r['obligations']:
            r['note'] += 'not all obligations decided'
        elif not reach_needed or reach_ok != reach_needed:
            r['note'] += 'vacuous: reachability guard not reached (%s)' % r['reach']
        else:
            r['status'] = 'ok'
        return r

    def trace(self, r):
        """counterexample inputs of one failed obligation"""
        cmd, fails, w = r['cmd'], r['fails'], r['w']
        r['inputs'] = []
        if self.left() < 30:
            return
        order = sorted(fails, key=lambda p: (0 if p.get('description', '').startswith('PTV') else 1))
        for p in order[:3]:
            rc, out, s = run(cmd + ['--trace', '--property', p['property']], min(100, self.left()))
            r['secs'] += s
            if rc is None:
                break
            vals = [int(b.replace(' ', ''), 2) for b in re.findall(r'^  ptv_log=\S* \(([01 ]+)\)', out, re.M)]
            r['inputs'].append((p.get('description', ''), vals))
            open(os.path.join(w, 'trace.json'), 'w').write(out)
        r['trace'] = os.path.join(w, 'trace.json')

    # -------------------------------------------------------------- native
    def native_build(self, unit, meta, defs, tag):
        """compile the harness file natively with the address sanitizer; returns (path or None, log)"""
        key = re.sub(r'\W', '_', os.path.basename(unit) + '_' + tag + '_'.join(defs))
        exe = os.path.join(self.work, key)
        with PLOCK:
            lock = self.nlocks.setdefault(key, threading.Lock())
        with lock:
            if key not in self.nbuilt:
                self.nbuilt[key] = self.native_build_(unit, meta, defs, exe)
            return self.nbuilt[key]

    def native_build_(self, unit, meta, defs, exe):
        s = open(unit).read()
        s = re.sub(r'/\*PTV.*?PTV\*/', '', s, flags=re.S)
        hs = sorted(set(n['harness'] for n in meta.get('native', [])) | set(e['harness'] for k in ('contracts', 'complete', 'bounded') for e in meta.get(k, [])))
        wrap = exe + '.wrap.c'
        open(wrap, 'w').write('#include "%s"\ntypedef struct { const char* name; void (*fn)(void); } ptv_harness_t;\nptv_harness_t ptv_harnesses[] = {%s{0,0}};\n' %
                              (unit, ''.join('{"%s",%s},' % (h, h) for h in hs)))
        srcs = [os.path.join(REPO, x) for x in meta.get('src', []) + meta.get('native_src', [])]
        san = meta.get('san', ['-fsanitize=address'])
        base = ['gcc', '-O1', '-g', '-w', '-std=gnu11', '-fno-omit-frame-pointer', '-fno-strict-aliasing'] + san + DEFS + INCS + ['-I' + os.path.dirname(unit)] + ['-D' + d for d in meta.get('defs', [])]
        for cmd in ([base + ['-D' + d for d in defs] + meta.get('cflags', []) + meta.get('native_cflags', []) + [wrap] + srcs + [os.path.join(LIB, 'ptv_native.c'), '-o', exe] + self.native_libs(meta) + ['-lm']]):
            rc, out, _ = run(cmd, min(200, self.left()), mem_gb=0)
            if rc != 0:
                return None, out[-2500:]
        return exe, ''

    def native_libs(self, meta):
        libs = list(meta.get('native_libs', []))
        if meta.get('fulllib'):
            libs.append(self.fulllib())
        if meta.get('judy') or meta.get('fulllib'):
            libs.append(self.judy())
        return libs

    _lib_lock = threading.Lock()

    def fulllib(self):
        """the whole C library of the current tree as an archive, address sanitizer on (units that include a source file shadow its member)"""
        with Check._lib_lock:
            d = os.path.join(self.work, 'fulllib')
            a = os.path.join(d, 'lib.a')
            if not os.path.exists(a):
                os.makedirs(d, exist_ok=True)
                fs = sorted(glob.glob(REPO + '/src/*.c'))
                with cf.ThreadPoolExecutor(8) as ex:
                    list(ex.map(lambda f: run(['gcc', '-O1', '-g', '-w', '-std=gnu11', '-fno-omit-frame-pointer', '-fno-strict-aliasing', '-fsanitize=address', '-c'] + DEFS + INCS + ['-o', d + '/' + os.path.basename(f)[:-2] + '.o', f], 120, mem_gb=0), fs))
                run(['ar', 'rcs', a + '.tmp'] + sorted(glob.glob(d + '/*.o')), 60)
                os.rename(a + '.tmp', a)
            return a

    _judy_lock = threading.Lock()

    def judy(self):
        """libJudy.a built from the current tree in the scratch directory"""
        with Check._judy_lock:
            d = os.path.join(self.work, 'judy')
            a = os.path.join(d, 'src', 'libJudy.a')
            if not os.path.exists(a):
                os.makedirs(d, exist_ok=True)
                shutil.copytree(REPO + '/judy-1.0.5/src', d + '/src', ignore=shutil.ignore_patterns('*.o', '*.a', '*TablesGen', 'Judy?Tables.c'))
                env = dict(os.environ, CC='gcc', COPT='-DJU_64BIT -O1 -fPIC -fno-strict-aliasing -fno-aggressive-loop-optimizations -w')
                run(['sh', '-e', './sh_build'], min(200, self.left()), cwd=d + '/src', mem_gb=0, env=env)
            return a

    _ext_lock = threading.Lock()

    def pyext(self):
        """the Python extension of the current tree, address sanitizer on; returns its directory, or raises"""
        j = self.judy()
        with Check._ext_lock:
            d = os.path.join(self.work, 'pyext')
            so = os.path.join(d, 'lib', 'pointless.so')
            if not os.path.exists(so):
                os.makedirs(d + '/lib', exist_ok=True)
                fs = sorted(glob.glob(REPO + '/src/*.c')) + sorted(glob.glob(REPO + '/python/*.c')) + [REPO + '/pointless_ext.c']
                base = ['gcc', '-O1', '-g', '-w', '-fPIC', '-std=gnu11', '-fno-omit-frame-pointer', '-fno-strict-aliasing', '-fwrapv', '-fsanitize=address'] + DEFS + INCS + ['-I' + REPO, '-I' + PYINC]
                with cf.ThreadPoolExecutor(8) as ex:
                    rs = list(ex.map(lambda f: run(base + ['-c', '-o', '%s/%s.%s.o' % (d, os.path.basename(os.path.dirname(f)), os.path.basename(f)[:-2]), f], 200, mem_gb=0), fs))
                bad = [o for rc, o, _ in rs if rc != 0]
                if bad:
                    raise RuntimeError('extension: ' + bad[0][-1500:])
                rc, out, _ = run(['gcc', '-shared', '-fsanitize=address', '-o', so + '.tmp'] + sorted(glob.glob(d + '/*.o')) + [j, '-lm'], 120, mem_gb=0)
                if rc != 0:
                    raise RuntimeError('extension: ' + out[-1500:])
                os.rename(so + '.tmp', so)
            return d + '/lib'

    def native_env(self):
        return dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=10:detect_stack_use_after_return=0:max_allocation_size_mb=2048',
                    UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=10')

    def native_job(self, unit, meta, n):
        r = dict(id='%s.%s.native' % (os.path.basename(unit)[:-2], n['harness'] + n.get('tag', '')), kind='native', status='undecided', iters=0, secs=0.0, note='', unit=unit, entry=n, harness=n['harness'])
        exe, log = self.native_build(unit, meta, n.get('defs', []), 'n')
        if exe is None:
            r['note'] = 'compile: ' + log
            return r
        rep = os.path.join(self.work, r['id'] + '.rep')
        secs = n.get('secs', 3) * (20 if self.tier == 'thorough' else 1)
        rc, out, s = run([exe, n['harness'], 'search', str(n.get('iters', 2000000) * (20 if self.tier == 'thorough' else 1)), str(secs), str(self.seed), rep], min(secs + 60, self.left()), mem_gb=0, env=self.native_env())
        r['secs'] = s
        m = re.search(r'PTV-DONE iters=(\d+) skipped=(\d+) reached=(\d+)', out)
        if rc == 0 and m:
            r['iters'], r['skipped'], r['reached'] = map(int, m.groups())
            if r['reached'] == 0:
                r['note'] = 'reachability guard never reached'
            else:
                r['status'] = 'ok'
        elif rc in (10, 11, 12) or (rc is not None and rc < 0) or (rc or 0) >= 128:
            r['status'] = 'failed'
            r['output'] = out[-4000:]
            r['rep'] = rep if os.path.exists(rep) else None
        else:
            r['note'] = 'rc=%s %s' % (rc, out[-500:])
        return r

    def replay_inputs(self, unit, meta, e, vals):
        """run the harness natively on the given inputs -> (reproduced, output)"""
        exe, log = self.native_build(unit, meta, e.get('defs', []) + (e.get('tdefs', []) if self.tier == 'thorough' else []), 'r')
        if exe is None:
            return False, 'native build failed: ' + log
        f = os.path.join(self.work, 'in.%d.txt' % (hash(tuple(vals)) & 0xffffff))
        open(f, 'w').write(''.join('%d\n' % v for v in vals))
        rc, out, _ = run([exe, e['harness'], 'replay', f], min(70, self.left()), mem_gb=0, env=self.native_env())
        return (rc in (10, 11, 12) or (rc is not None and (rc < 0 or rc >= 128))), out[-4000:]

    def record(self, name, e, unit, defs, vals, summary, output, extra=None):
        p = os.path.join(self.out, re.sub(r'\W+', '_', name) + '.json')
        json.dump(dict(property=self.prop, unit=os.path.relpath(unit, VERIF), harness=e['harness'], defs=defs, inputs=vals, summary=summary, output=output, how='python3 /verif/lib/ptv.py replay ' + p, **(extra or {})),
                  open(p, 'w'), indent=1)
        return p

    # ----------------------------------------------------------------- main
    def units(self):
        us = sorted(glob.glob(os.path.join(VERIF, 'units', self.prop, '*.c')))
        only = os.environ.get('PTV_ONLY')
        return [u for u in us if not only or re.search(only, os.path.basename(u))]

    def main(self):
        us = [(u, meta_of(u)) for u in self.units()]
        if not us and not glob.glob(os.path.join(VERIF, 'units', self.prop, '*.py')):
            raise SystemExit('no units for ' + self.prop)
        ex = cf.ThreadPoolExecutor(NCPU)
        futs = []
        for u, m in us:
            for e in m.get('contracts', []):
                futs.append(ex.submit(self.cbmc_job, u, m, e, 'contract'))
            for e in m.get('complete', []):
                futs.append(ex.submit(self.cbmc_job, u, m, e, 'complete'))
        for u, m in us:
            for e in m.get('bounded', []):
                if not e.get('fallback'):
                    futs.append(ex.submit(self.cbmc_job, u, m, e, 'bounded'))
            for n in m.get('native', []):
                futs.append(ex.submit(self.native_job, u, m, n))
        for p in sorted(glob.glob(os.path.join(VERIF, 'units', self.prop, '*.smt2'))):
            futs.append(ex.submit(self.lemma_job, p))
        pys = []
        for p in sorted(glob.glob(os.path.join(VERIF, 'units', self.prop, '*.py'))):
            pys.append(ex.submit(self.py_job, p))
        res = [f.result() for f in futs]
        # fall back to the bounded harnesses of a unit whose proof did not go through
        futs = []
        for u, m in us:
            if any(r['kind'] == 'native' and r['status'] == 'failed' for r in res):
                break
            if any(r['unit'] == u and r['kind'] in ('contract', 'complete') and r['status'] in ('failed', 'undecided') for r in res):
                for e in m.get('bounded', []):
                    if e.get('fallback'):
                        futs.append(ex.submit(self.cbmc_job, u, m, e, 'bounded'))
        res += [f.result() for f in futs]
        res += [f.result() for f in pys]
        self.decide(us, res)
        return self.finish(us, res)

    def lemma_job(self, path):
        """a lemma over the contracts: every check-sat must be unsat (a fact about arithmetic, not about the code)"""
        n = open(path).read().count('(check-sat)')
        r = dict(id=os.path.basename(path), kind='complete', status='undecided', obligations=n, discharged=0, secs=0.0, note='', unit=path, entry={}, harness='lemma', backend='z3', failed=[], reach='')
        rc, out, r['secs'] = run(['z3', '-T:60', path], min(70, self.left()))
        r['discharged'] = out.split().count('unsat')
        if rc == 0 and r['discharged'] == n:
            r['status'] = 'ok'
        else:
            r['note'] = out[-300:]
        return r

    def py_job(self, path):
        """a driver of its own (native, bounded): prints PTV-FAIL lines, or PTV-DONE iters=N"""
        r = dict(id=os.path.basename(path), kind='native', status='undecided', iters=0, secs=0.0, note='', unit=path, entry={}, harness='main')
        t = 150 if self.tier == 'quick' else 1500
        rep = os.path.join(self.work, os.path.basename(path) + '.rep')
        env = dict(os.environ, PTV_REPO=REPO, PTV_WORKDIR=self.work, VERIF_SEED=str(self.seed), VERIF_TIER=self.tier, PTV_REP=rep)
        exe = sys.executable
        if '# PTV pyext' in open(path).read():
            try:
                env.update(self.native_env(), PYTHONPATH=self.pyext() + ':' + LIB, LD_PRELOAD=asan_lib(), PYTHONMALLOC='malloc', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
            except (RuntimeError, OSError) as e:
                r['note'] = 'compile: ' + str(e)[-1500:]
                return r
            exe = PYEXE
        rc, out, s = run([exe, path], min(t + 200, self.left()), mem_gb=0, env=env)
        r['secs'] = s
        m = re.search(r'PTV-DONE iters=(\d+)', out)
        if 'PTV-FAIL' in out or 'AddressSanitizer' in out or (rc is not None and rc < 0 and rc != -9):
            r['status'] = 'failed'
            r['output'] = out[-4000:]
            r['rep'] = rep if os.path.exists(rep) else None
        elif rc == 0 and m:
            r['iters'] = r['reached'] = int(m.group(1))
            r['status'] = 'ok'
        else:
            r['note'] = 'rc=%s %s' % (rc, out[-1500:])
        return r

    def decide(self, us, res):
        metas = dict(us)
        # 1. failing inputs (the native searches first: they are the cheapest source)
        t_trace = time.time()
        for r in sorted(res, key=lambda r: r['kind'] != 'native'):
            if r['kind'] == 'native' and r['status'] == 'failed':
                if r['unit'].endswith('.py'):
                    p = os.path.join(self.out, os.path.basename(r['unit']) + '.json')
                    inp = open(r['rep']).read() if r.get('rep') else None
                    json.dump(dict(property=self.prop, driver=os.path.relpath(r['unit'], VERIF), seed=self.seed, input=inp, output=r['output'], how='python3 /verif/lib/ptv.py replay ' + p), open(p, 'w'), indent=1)
                    self.violations.append((r['id'], p, True))
                    continue
                vals = [int(x) for x in open(r['rep']) if not x.startswith('#')] if r.get('rep') else None
                if vals is None:
                    p = self.record(r['id'], r['entry'], r['unit'], r['entry'].get('defs', []), None, 'crash during native search', r['output'])
                else:
                    p = self.record(r['id'], r['entry'], r['unit'], r['entry'].get('defs', []), vals, 'failing input found by search of the contract harness', r['output'])
                self.violations.append((r['id'], p, True))
            elif r['kind'] in ('contract', 'complete', 'bounded') and r['status'] == 'failed':
                hit = None
                if any(v[2] for v in self.violations) or time.time() - t_trace > 240:
                    r['inputs'] = []
                    continue
                self.trace(r)
                for desc, vals in r.get('inputs', []):
                    ok, out = self.replay_inputs(r['unit'], metas[r['unit']], r['entry'], vals)
                    if ok:
                        hit = (desc, vals, out)
                        break
                if hit:
                    p = self.record(r['id'], r['entry'], r['unit'], r['entry'].get('defs', []), hit[1], 'obligation failed: %s; verifier counterexample replayed on the real code' % hit[0], hit[2], dict(failed=r['failed'][:20]))
                    self.violations.append((r['id'], p, True))
                    r['replayed'] = True
        # 2. failed obligations without a failing input
        for r in res:
            if r['kind'] in ('contract', 'complete', 'bounded') and r['status'] == 'failed' and not r.get('replayed'):
                if r.get('unknown_callee'):
                    r['status'] = 'undecided'
                    r['note'] += 'obligation failed, but a callee has no body or contract'
                    continue
                tr = ''
                if r.get('trace') and os.path.exists(r['trace']):
                    tr = open(r['trace']).read()[-20000:]
                p = self.record(r['id'], r['entry'], r['unit'], r['entry'].get('defs', []), [v for _, v in r.get('inputs', [])][:1], 'obligation failed, no failing input found', tr, dict(failed=r['failed'][:20]))
                self.violations.append((r['id'], p, False))

    def finish(self, us, res):
        pr = [r for r in res if r['kind'] in ('contract', 'complete') and r['status'] != 'skipped']
        bd = [r for r in res if r['kind'] == 'bounded' and r['status'] != 'skipped']
        na = [r for r in res if r['kind'] == 'native']
        level = json.load(open(os.path.join(VERIF, 'levels.json'))).get(self.prop, 'proof' if pr else 'other') if os.path.exists(os.path.join(VERIF, 'levels.json')) else ('proof' if pr else 'other')
        funcs = sorted(set(f for _, m in us for f in m.get('functions', [])))
        assumptions = sorted(set(a for _, m in us for a in m.get('assumptions', [])))
        bk = {}
        for r in pr:
            d = bk.setdefault(r['backend'], dict(obligations=0, discharged=0, solver_s=0.0))
            d['obligations'] += r['obligations']; d['discharged'] += r['discharged']; d['solver_s'] = round(d['solver_s'] + r['secs'], 2)
        iters = sum(r.get('iters', 0) for r in na)
        cov = dict(
            obligations=sum(r['obligations'] for r in pr), discharged=sum(r['discharged'] for r in pr),
            checker_cmd='goto-cc --function HARNESS unit.c; goto-instrument --dfcc HARNESS --enforce-contract F [--replace-call-with-contract G] [--apply-loop-contracts] a.gb b.gb; cbmc b.gb (units/%s/*.c give HARNESS and F)' % self.prop,
            trusted_base=['CBMC 6.11.0 (goto-cc front end, dfcc instrumentation, symbolic execution, SAT back end)', 'CBMC built-in models of malloc/memcpy/memset/strlen', 'the harness vocabulary lib/ptv.h and the contracts in units/%s' % self.prop, 'LP64 little-endian x86-64'],
            functions_under_contract=funcs,
            by_backend=bk,
            proofs=[dict(id=r['id'], kind=r['kind'], enforce=self.enforce_name(r['entry']) if 'enforce' in r['entry'] else '', replaced=r['entry'].get('replace', []), obligations=r['obligations'], discharged=r['discharged'], status=r['status'], solver_s=round(r['secs'], 2), reach=r.get('reach', ''), note=r['note'][:300], no_body=r.get('nobody', [])) for r in pr],
            bounded=[dict(id=r['id'], bound=r['bound'] or 'unwind %s' % r['entry'].get('unwind'), obligations=r['obligations'], discharged=r['discharged'], status=r['status'], solver_s=round(r['secs'], 2), note=r['note'][:300]) for r in bd],
            native_search=[dict(id=r['id'], executions=r.get('iters', 0), skipped=r.get('skipped', 0), completed=r.get('reached', 0), status=r['status'], note=r['note'][:300], defs=r['entry'].get('defs', [])) for r in na],
            evaluations=iters, distinct_nontrivial=sum(r.get('reached', 0) for r in na),
            rule='native executions of the same contract harnesses on inputs drawn with VERIF_SEED (boundary-biased); non-trivial = the precondition held and the final check was reached (completed)',
            samples=[dict(unit=os.path.basename(r['unit']), harness=r['harness'], executions=r.get('iters', 0)) for r in na][:5] or [dict(unit=os.path.basename(r['unit']), harness=r['harness'], obligations=r['obligations']) for r in pr + bd][:5],
            explanation='contract proofs (counted under obligations/discharged) with bounded and runtime checks of the same contracts listed separately and never counted as proved')
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov, assumptions=assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w'), indent=1)
        for r in res:
            print('%-48s %-9s %-9s %s/%s %6.1fs it=%s reach=%s/%s %s' % (r['id'], r['kind'], r['status'], r.get('discharged', ''), r.get('obligations', ''), r['secs'], r.get('iters', ''), r.get('reach', r.get('reached', '')), r.get('iters', ''), r['note'][:1500 if os.environ.get('PTV_V') else 160].replace('\n', ' | ')))
            if r['status'] == 'failed':
                for f in r.get('failed', [])[:4]:
                    print('    obligation failed: %s: %s (%s)' % (f['property'], f['description'], f['where']))
                if r['kind'] == 'native':
                    print('    ' + r.get('output', '')[:1500 if os.environ.get('PTV_V') else 400].replace('\n', '\n    '))
        if os.environ.get('PTV_KEEP'):
            print('work dir', self.work)
        else:
            shutil.rmtree(self.work, ignore_errors=True)
        kf = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(kf):
            for line in open(kf):
                if line.startswith('KNOWN-FINDING: property=%s ' % self.prop):
                    print(line.strip())
        for r in pr:
            if r['status'] != 'ok':
                print('NOT-PROVED %s %s: %s' % (self.prop, r['id'], (r['status'] + ' ' + r['note'][:200]).replace('\n', ' | ')))
        if not self.violations and not any(r['status'] == 'ok' for r in res):
            print('UNDECIDED property=%s: no part of this check gave an answer' % self.prop)
            return 2
        if self.violations:
            self.violations.sort(key=lambda v: not v[2])
            s, p, inp = self.violations[0]
            print('VIOLATION property=%s replay=%s%s' % (self.prop, p, '' if inp else ' no-failing-input-found'))
            return 1
        print('HELD property=%s %d/%d obligations discharged, %d bounded, %d executions, %.0f s' % (self.prop, cov['discharged'], cov['obligations'], sum(r['discharged'] for r in bd), iters, time.time() - self.t0))
        return 0


def replay(path):
    d = json.load(open(path))
    if 'driver' in d:
        c = Check(d['property'], 'quick', d['seed'])
        r = c.py_job(os.path.join(VERIF, d['driver']))
        shutil.rmtree(c.work, ignore_errors=True)
        print(r.get('output') or r['note'])
        print('reproduced' if r['status'] == 'failed' else 'not reproduced')
        return 1 if r['status'] == 'failed' else 0
    unit = os.path.join(VERIF, d['unit'])
    c = Check(d['property'], 'quick', 1)
    ok, out = c.replay_inputs(unit, meta_of(unit), dict(harness=d['harness'], defs=d['defs']), d['inputs'] or [])
    shutil.rmtree(c.work, ignore_errors=True)
    print(out)
    print('reproduced' if ok else 'not reproduced')
    return 1 if ok else 0


def main():
    a = sys.argv[1:]
    if a[0] == 'replay':
        return replay(a[1])
    prop = a[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    return Check(prop, tier, seed).main()


if __name__ == '__main__':
    sys.exit(main())
