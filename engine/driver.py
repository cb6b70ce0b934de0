"""Runs one check: compile /repo's sources and the harness to LLVM IR, execute
the harness symbolically, replay counterexamples and sample paths natively,
write the evidence file."""
import os, sys, json, re, time, subprocess, tempfile, shutil, traceback
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = ['/usr/bin/clang-18', '--driver-mode=g++']
INC = ['-I' + ROOT + '/include', '-I' + ROOT + '/include/stub', '-I' + REPO + '/libsrc', '-I' + REPO + '/libsrc/cencalvm']
STD = ['-std=gnu++17', '-ffp-contract=off', '-w']


def sh(cmd, timeout=300):
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr


class Stop(Exception):
    pass


class Check:
    def __init__(self, cid, spec, tier, seed):
        self.id = cid
        self.spec = spec
        self.tier = tier
        self.seed = seed
        self.tmp = tempfile.mkdtemp(prefix='vs.')
        self.t0 = time.time()
        self.ntrace = 0
        self.notes = []
        self.programs = {}

    def path(self, *a):
        return os.path.join(self.tmp, *a)

    def srcs(self):
        out = [(os.path.join(ROOT, 'harness', self.spec['harness']), [])]
        for s in self.spec.get('repo', []):
            if isinstance(s, str):
                s = (s, [])
            fl = list(s[1])
            if len(s) > 2:  # a program: its main becomes s[2], everything else local
                fl += ['-Dmain=' + s[2]]
                self.programs[os.path.join(REPO, s[0])] = s[2]
            out.append((os.path.join(REPO, s[0]), fl))
        return out

    def localize(self, nm, path, main):
        """external definitions of a program's object other than its main"""
        rc, out = sh([nm, path])
        names = [l.split()[-1] for l in out.splitlines() if len(l.split()) >= 2 and l.split()[-2] in 'TDBR']
        return [n for n in names if not re.match(r'_Z\d+%s[a-z]' % main, n)]

    def localize_bc(self, path, main):
        names = self.localize('llvm-nm-18', path, main)
        if not names:
            return
        sh(['llvm-dis-18', path, '-o', path + '.ll'])
        with open(path + '.ll') as f:
            t = f.read()
        t = re.sub(r'@(%s)\b(?![\w.$])' % '|'.join(map(re.escape, names)), lambda m: '@' + m.group(1) + '.' + main, t)
        with open(path + '.ll', 'w') as f:
            f.write(t)
        rc, out = sh(['llvm-as-18', path + '.ll', '-o', path])
        if rc:
            raise Stop('localize: ' + out)

    def defs(self):
        return ['-D' + d for d in self.spec.get('defs', [])] + ['-DVS_TIER=%d' % (1 if self.tier == 'thorough' else 0)]

    def compile_bc(self):
        flags = CLANG + STD + ['-O0', '-Xclang', '-disable-O0-optnone', '-fno-use-cxa-atexit'] + INC + self.defs()
        jobs = []
        for i, (s, f) in enumerate(self.srcs() + [(ROOT + '/engine/lib.cc', [])]):
            jobs.append((flags + f + ['-emit-llvm', '-c', s, '-o', self.path('m%d.bc' % i)], s))
        with ThreadPoolExecutor(8) as ex:
            for (cmd, s), (rc, out) in zip(jobs, ex.map(lambda j: sh(j[0]), jobs)):
                if rc:
                    raise Stop('cannot compile %s:\n%s' % (s, out[-3000:]))
        for i, (cmd, src) in enumerate(jobs):
            if src in self.programs:
                self.localize_bc(self.path('m%d.bc' % i), self.programs[src])
        bcs = [self.path('m%d.bc' % i) for i in range(len(jobs))]
        rc, out = sh(['llvm-link-18'] + bcs + ['-o', self.path('all.bc')])
        if rc:
            raise Stop('link: ' + out)
        rc, out = sh(['opt-18', '-passes=internalize,globaldce,function(sroa)', '-internalize-public-api-list=vs_main',
                      self.path('all.bc'), '-o', self.path('opt.bc')])
        if rc:
            raise Stop('opt: ' + out)
        return self.path('opt.bc')

    def native(self, variant, flags):
        exe = self.path('native_' + variant)
        if os.path.exists(exe):
            return exe
        base = ['g++'] + STD + flags + INC + self.defs()
        jobs = []
        for i, (s, f) in enumerate(self.srcs() + [(ROOT + '/include/vs_native.cc', ['-Umain'])]):
            jobs.append(base + f + ['-c', s, '-o', self.path('n%d_%s.o' % (i, variant))])
        with ThreadPoolExecutor(8) as ex:
            for cmd, (rc, out) in zip(jobs, ex.map(lambda j: sh(j), jobs)):
                if rc:
                    raise Stop('native build: ' + out[-2000:])
        objs = [self.path('n%d_%s.o' % (i, variant)) for i in range(len(jobs))]
        for i, (src, f) in enumerate(self.srcs()):
            if src in self.programs:
                names = self.localize('nm', objs[i], self.programs[src])
                if names:
                    sh(['objcopy'] + ['--localize-symbol=' + n for n in names] + [objs[i]])
        rc, out = sh(base + objs + ['-Wl,--wrap=exit', '-o', exe, '-lm'] + self.spec.get('libs', []))
        if rc:
            raise Stop('native link: ' + out[-2000:])
        return exe

    def replay(self, exe, inputs):
        """run natively; returns (fails, obs, end, crash text)"""
        d = tempfile.mkdtemp(dir=self.tmp)
        inf, resf = self.path('in.%d' % os.getpid()), self.path('res.%d' % os.getpid())
        inf, resf = d + '.in', d + '.res'
        with open(inf, 'w') as f:
            for nm, kind, hx, _ in inputs:
                f.write('%s %s %s\n' % (nm.replace(' ', '_'), kind, hx))
        env = dict(os.environ, VS_INPUTS=inf, VS_RESULT=resf, VS_DIR=d,
                   ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77', UBSAN_OPTIONS='print_stacktrace=0')
        try:
            r = subprocess.run([exe], env=env, capture_output=True, text=True, timeout=60, errors='replace')
            rc, txt = r.returncode, r.stderr
            try:
                txt += open(d + '/_stderr', errors='replace').read()
            except OSError:
                pass
        except subprocess.TimeoutExpired:
            rc, txt = -999, 'timeout'
        fails, obs, end, crash = [], [], None, None
        try:
            for l in open(resf, errors='replace'):
                l = l.rstrip('\n')
                if l.startswith('FAIL '):
                    fails.append(l[5:])
                elif l.startswith('OBS '):
                    nm, k, v = l[4:].rsplit(' ', 2)
                    obs.append([nm, k, v])
                elif l.startswith('CRASH '):
                    crash = l[6:]
                elif l.startswith('END '):
                    end = l[4:]
                elif l.startswith('DIVERGE'):
                    end = l
        except OSError:
            pass
        if rc != 0:
            crash = 'exit status %d: %s' % (rc, txt[-400:])
        shutil.rmtree(d, ignore_errors=True)
        return fails, obs, end, crash

    VARIANTS = [('o2', ['-O2', '-g']),
                ('san', ['-O1', '-g', '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all', '-fno-sanitize=vptr']),
                ('pat', ['-O1', '-ftrivial-auto-var-init=pattern']),
                ('zero', ['-O0', '-ftrivial-auto-var-init=zero'])]

    def reproduce(self, v):
        """does the recorded violation happen in the compiled code?"""
        for name, flags in self.VARIANTS:
            if name in ('pat', 'zero') and not v.get('uninit'):
                continue
            exe = self.native(name, flags)
            fails, obs, end, crash = self.replay(exe, v['inputs'])
            if v['kind'] == 'crash':
                if crash:
                    return name, crash
            elif v['label'] in fails:
                return name, 'assertion failed: ' + v['label']
            elif crash and v.get('uninit'):
                return name, crash
        return None

    def symbolic(self, bc):
        import rt
        opts = dict(self.spec.get('opts', {}))
        opts['solver'] = dict(self.spec.get('solver', {}))
        if self.tier == 'quick' and not self.known():
            opts.setdefault('cut', 90)
        m = rt.Machine(bc, opts)
        m.precompile()
        res = self.path('res.jsonl')
        limit = self.spec.get('limit', {}).get(self.tier, 600 if self.tier == 'quick' else 3000)
        m.explore('vs_main', res, int(os.environ.get('VERIF_JOBS', '8')), time.time() + limit)
        recs = []
        with open(res) as f:
            for l in f:
                recs.append(json.loads(l))
        dm = m.demangled
        fns = set()
        for r in recs:
            fns.update(r.get('called', []))
        return recs, sorted(dm.get(f, f) for f in fns)

    def labels(self):
        """assertion labels and cover names that must be reached"""
        seen = set()
        todo = [os.path.join(ROOT, 'harness', self.spec['harness'])]
        txt = open(todo[0]).read()
        txt = re.sub(r'//[^\n]*', '', txt)
        for m in re.finditer(r'\bvs_assert(?:_close)?\(', txt):
            i, depth, last, instr = m.end(), 1, None, False
            while depth and i < len(txt):
                c = txt[i]
                if c == '"':
                    j = i + 1
                    while txt[j] != '"':
                        j += 2 if txt[j] == '\\' else 1
                    last = txt[i + 1:j]
                    i = j
                elif c == '(':
                    depth += 1
                    last = None
                elif c == ')':
                    depth -= 1
                elif not c.isspace() and c != ')':
                    last = None
                i += 1
            if last:
                seen.add('assert:' + last)
        for m in re.finditer(r'vs_cover\("([^"]*)"\)', txt):
            seen.add(m.group(1))
        for x in self.spec.get('optional', []):
            seen.discard(x)
        return seen

    def known(self):
        try:
            kf = json.load(open(os.path.join(ROOT, 'known_findings.json')))
        except OSError:
            return []
        return [k for k in kf['findings'] if k['property'] == self.id and k['status'] == 'open']

    def run(self):
        self.trace_err = []
        code = 2
        try:
            code = self.go()
        except Stop as ex:
            print('ERROR', ex)
        except BaseException:
            traceback.print_exc()
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)
        return code

    def go(self):
        bc = self.compile_bc()
        tc = time.time()
        recs, fns = self.symbolic(bc)
        ts = time.time() - tc
        by = {}
        for r in recs:
            by.setdefault(r['status'], []).append(r)
        tot = {}
        for r in recs:
            for k, v in (r.get('stats') or {}).items():
                tot[k] = tot.get(k, 0) + v
        problems = []
        for st in ('unsupported', 'timeout', 'error'):
            for r in by.get(st, [])[:3]:
                problems.append('%s: %s at %s' % (st, r.get('msg'), ' < '.join(reversed(r.get('where', [])[-4:]))))
            if len(by.get(st, [])) > 3:
                problems.append('... %d paths %s' % (len(by[st]), st))
        viol = []
        for r in recs:
            viol.extend(r.get('violations', []))
            problems.extend('inconclusive: ' + x for x in r.get('inconclusive', []))
            if r.get('unvalidated'):
                problems.append('path end not decided: ' + r['unvalidated'])
        problems = list(dict.fromkeys(problems))
        # replay violations, by label
        groups = {}
        for v in viol:
            groups.setdefault(v['label'], []).append(v)
        confirmed, unrep = [], []
        for lab, vs in groups.items():
            hit = None
            vs.sort(key=lambda v: v.get('uninit', 0))
            step = max(1, len(vs) // 6)
            for v in vs[::step][:8]:
                rep = self.reproduce(v)
                if rep:
                    hit = (v, rep)
                    break
            if hit:
                confirmed.append((lab, hit[0], hit[1], len(vs)))
            else:
                unrep.append((lab, vs[0], len(vs)))
        # validate a sample of passing paths against the compiled code
        done = [r for r in by.get('done', []) if 'inputs' in r]
        nval = 0
        if done:
            k = self.spec.get('samples', 25)
            import random
            rnd = random.Random(self.seed)
            pick = done if len(done) <= k else rnd.sample(done, k)
            exe = self.native(*self.VARIANTS[0])
            for r in pick:
                fails, obs, end, crash = self.replay(exe, r['inputs'])
                bad = None
                if crash:
                    bad = 'crash ' + crash
                elif end != 'done':
                    bad = str(end)
                elif fails and not r['violations']:
                    bad = 'native assertion failure ' + fails[0]
                elif not r['violations'] and obs != r['obs']:
                    d = [(a, b) for a, b in zip(obs, r['obs']) if a != b]
                    bad = 'observations differ %r' % (d[:3] or (len(obs), len(r['obs'])),)
                if bad:
                    if r.get('uninit'):
                        self.notes.append('path reading indeterminate memory not comparable: ' + bad[:200])
                    else:
                        self.trace_err.append((bad, r['inputs']))
                else:
                    nval += 1
        for b, i in self.trace_err[:3]:
            problems.append('native replay of a passing path disagrees: %s inputs %s' % (b, [(x[0], x[3]) for x in i][:40]))
        covers = set()
        for r in by.get('done', []) + by.get('violated', []) + by.get('crash', []):
            covers.update(r.get('covers', []))
        missing = sorted(self.labels() - covers)
        if missing and not problems and not confirmed:
            problems.append('vacuous: never reached: ' + '; '.join(missing))
        for lab, v, n in unrep:
            problems.append('counterexample not reproduced natively: %s (%d paths) inputs %s where %s' %
                            (lab, n, [(x[0], x[3]) for x in v['inputs']][:60], v['where']))
        # report
        known = self.known()
        nv = 0
        edir = os.path.join(ROOT, 'evidence')
        os.makedirs(edir, exist_ok=True)
        for old in os.listdir(edir):
            if old.startswith(self.id + '.replay'):
                os.unlink(os.path.join(edir, old))
        kf_lines = set()
        for lab, v, rep, n in confirmed:
            k = [x for x in known if x['label'] == lab]
            if k:
                kf_lines.add('KNOWN-FINDING: property=%s %s' % (self.id, k[0]['what']))
                continue
            nv += 1
            p = os.path.join(edir, '%s.replay%d.json' % (self.id, nv))
            with open(p, 'w') as f:
                json.dump({'property': self.id, 'label': lab, 'kind': v['kind'], 'inputs': v['inputs'], 'where': v['where'],
                           'uninit': v.get('uninit', 0), 'native_variant': rep[0], 'native_result': rep[1],
                           'rerun': 'python3-vt /verif/check.py %s --replay %s' % (self.id, p)}, f, indent=1)
            print('  %s  [%s; %d path(s)]' % (lab, rep[1].strip().split('\n')[-1][:160], n))
            print('    inputs: ' + ', '.join('%s=%s' % (x[0], x[3]) for x in v['inputs'])[:600])
            print('VIOLATION property=%s replay=%s' % (self.id, p))
        for l in sorted(kf_lines):
            print(l)
        for x in known:
            if not any(lab == x['label'] for lab, *_ in confirmed):
                print('note: known finding no longer observed: ' + x['label'])
        samples = []
        for r in done[:3]:
            samples.append({'inputs': {x[0]: x[3] for x in r['inputs']}, 'observed': r['obs'][:20]})
        repo_fns = [f for f in fns if re.search(r'cencalvm|cvm|main|Averager|VMCreator|Vs|usage|parse|query', f) and not f.startswith('std::')]
        ev = {'property': self.id, 'tier': self.tier, 'seed': self.seed, 'level': self.spec.get('level', 'model_checking'),
              'coverage': {
                  'states': len(recs),
                  'transitions': tot.get('forks', 0),
                  'traces_validated_against_impl': nval,
                  'samples': samples,
                  'paths_by_end': {k: len(v) for k, v in by.items()},
                  'assertions_checked': tot.get('asserts', 0),
                  'solver_queries': tot.get('queries', 0), 'solver_unsat': tot.get('unsat', 0), 'solver_sat': tot.get('sat', 0),
                  'fp_refinements': tot.get('refine', 0), 'exact_fp_queries': tot.get('exact', 0), 'solver_unknown': tot.get('unknown', 0),
                  'solver_time_s': round(tot.get('stime', 0), 2), 'ir_blocks_executed': tot.get('steps', 0),
                  'functions_encoded': repo_fns, 'library_functions_encoded': len(fns) - len(repo_fns),
                  'bounds': self.spec.get('bounds', ''), 'labels_reached': sorted(covers & self.labels()),
                  'explanation': 'states = symbolic execution path ends, transitions = solver-decided branch forks; every assertion on every path is an SMT query over all input values of that path',
              },
              'assumptions': self.spec.get('assumptions', []),
              'wall_s': round(time.time() - self.t0, 2), 'violations': nv}
        if problems:
            ev['coverage']['problems'] = problems[:20]
        if self.notes:
            ev['coverage']['notes'] = self.notes[:10]
        with open(os.path.join(edir, self.id + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %d paths (%s), %d assertions, %d queries, solver %.1fs, explore %.1fs, %d traces validated, wall %.1fs' %
              (self.id, len(recs), ', '.join('%s %d' % (k, len(v)) for k, v in sorted(by.items())), tot.get('asserts', 0),
               tot.get('queries', 0), tot.get('stime', 0), ts, nval, time.time() - self.t0))
        if nv:
            return 1
        if problems:
            for p in problems[:10]:
                print('INCOMPLETE', p[:1500])
            return 2
        return 0


def replay_file(cid, spec, path):
    c = Check(cid, spec, 'quick', 1)
    try:
        v = json.load(open(path))
        r = c.reproduce(v)
        print('reproduced: %s' % (r,) if r else 'not reproduced')
        return 1 if r else 0
    finally:
        shutil.rmtree(c.tmp, ignore_errors=True)
