"""Shared machinery: build from /repo's working tree, run drivers, run TLC, report."""
import concurrent.futures as cf
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
BUILD = os.environ.get('VF_BUILD', os.path.join(VERIF, 'build'))
SRC = os.path.join(BUILD, 'src')
NCPU = os.cpu_count() or 4
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
PLATFORM_H = '#define HAVE_PIPE2 1\n#define HAVE_VFORK 1\n#define HAVE_DECL___ATOMIC_COMPARE_EXCHANGE 1\n'

FLAVORS = {
    # code under the deterministic scheduler (own __tsan_* runtime)
    'vs': ['-std=c++11', '-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=thread', '-DDEBUG', '-D_DEBUG', '-mllvm', '-tsan-instrument-func-entry-exit=0'],
    # sequential drivers: memory errors become failures of the run
    'asan': ['-std=c++11', '-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address', '-DDEBUG', '-D_DEBUG'],
    'plain': ['-std=c++11', '-O1', '-g1', '-DDEBUG', '-D_DEBUG'],
}
COMMON = ['-include', 'exception', '-pthread', '-w', '-fno-strict-aliasing', '-fno-delete-null-pointer-checks', '-I', SRC]


class ToolError(Exception):
    pass


class NotRepeated(ToolError):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def mirror():
    """Copy the library's sources (current working tree) to the build area."""
    os.makedirs(SRC, exist_ok=True)
    r = sh(['rsync', '-rlc', '--delete', '--exclude', '/platform.h', '--exclude', '/windows/', '--include', '*/',
            '--include', '*.h', '--include', '*.tcc', '--include', '*.cpp', '--include', '*.inl', '--include', '*.c', '--exclude', '*',
            os.path.join(REPO, 'src/lightspeed') + '/', os.path.join(SRC, 'lightspeed') + '/'])
    if r.returncode:
        raise ToolError('mirror: ' + r.stdout)
    p = os.path.join(SRC, 'lightspeed/platform.h')
    txt = PLATFORM_H
    try:
        txt = open(os.path.join(REPO, 'src/lightspeed/platform.h')).read() or txt
    except OSError:
        pass
    if not os.path.exists(p) or open(p).read() != txt:
        open(p, 'w').write(txt)


def lib_sources():
    out = []
    for d, dirs, files in os.walk(os.path.join(SRC, 'lightspeed')):
        if 'windows' in d.split(os.sep):
            continue
        for f in files:
            if f.endswith('.cpp'):
                out.append(os.path.relpath(os.path.join(d, f), SRC))
    return sorted(out)


def ninja_quote(s):
    return s.replace('$', '$$').replace(' ', '$ ').replace(':', '$:')


def build(targets):
    """targets: list of (harness name, flavor). Returns {(name, flavor): path}."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        t0 = time.time()
        mirror()
        srcs = lib_sources()
        o = []
        fl = sorted(set(f for _, f in targets))
        for f in fl:
            o.append('rule cc_%s\n command = clang++ %s $flags -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc\n' % (f, ' '.join(FLAVORS[f] + COMMON)))
            lf = '-fsanitize=address' if f == 'asan' else ''
            o.append('rule link_%s\n command = clang++ %s -o $out $in -pthread -ldl\n' % (f, lf))
        o.append('rule ccu\n command = clang++ -std=c++14 -O2 -g1 -w -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc\n')
        o.append('rule ar\n command = rm -f $out && ar -rcs $out @$out.rsp\n rspfile = $out.rsp\n rspfile_content = $in\n')
        o.append('build obj/vsched.o: ccu %s\n' % os.path.join(VERIF, 'vsched/vsched.cpp'))
        for f in fl:
            objs = []
            for s in srcs:
                ob = 'obj/%s/%s.o' % (f, s[:-4])
                o.append('build %s: cc_%s %s\n' % (ninja_quote(ob), f, ninja_quote(os.path.join(SRC, s))))
                objs.append(ninja_quote(ob))
            o.append('build obj/%s/liblightspeed.a: ar %s\n' % (f, ' '.join(objs)))
        res = {}
        for n, f in targets:
            hs = os.path.join(VERIF, 'harness', n + '.cpp')
            m = re.match(r'// PARTS (\d+)', open(hs).read(40))  # heavy templates: compiled in parts, each with its own PART
            ob = []
            for i in range(int(m.group(1)) if m else 1):
                ob.append('obj/%s/h_%s%s.o' % (f, n, '_%d' % i if m else ''))
                o.append('build %s: cc_%s %s\n flags = -DPART=%d\n' % (ob[-1], f, hs, i))
            ob = ' '.join(ob)
            extra = 'obj/vsched.o' if f == 'vs' else ''
            o.append('build bin/%s-%s: link_%s %s %s obj/%s/liblightspeed.a\n' % (n, f, f, ob, extra, f))
            res[(n, f)] = os.path.join(BUILD, 'bin', '%s-%s' % (n, f))
        nf = os.path.join(BUILD, 'build.ninja')
        open(nf, 'w').write(''.join(o))
        for p in res.values():
            if os.path.exists(p):
                pass
        r = sh(['ninja', '-C', BUILD, '-j', str(NCPU), '-k', '0', '-f', nf] + ['bin/%s-%s' % t for t in targets], env=dict(os.environ, CCACHE_DISABLE='1'))
        if r.returncode:
            lines = [x for x in r.stdout.splitlines() if 'error' in x or 'FAILED' in x]
            raise ToolError('build failed:\n' + '\n'.join(lines[:30]) + '\n' + r.stdout[-2000:])
        log('built %s in %.1fs' % (', '.join('%s-%s' % t for t in targets), time.time() - t0))
        return res


def log(*a):
    print('[vf]', *a, flush=True)


# ------------------------------------------------------------------ TLC
def java(args, env=None, cwd=None, timeout=None, mem='2g', workers_par=False):
    cmd = ['java', '-XX:+UseParallelGC' if workers_par else '-XX:+UseSerialGC', '-Xmx' + mem, '-Xss16m', '-XX:TieredStopAtLevel=%d' % (4 if workers_par else 4),
           '-cp', JARS, 'tlc2.TLC'] + args
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, cwd=cwd, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        class R:
            returncode = -9
            stdout = (x.stdout.decode() if isinstance(x.stdout, bytes) else (x.stdout or '')) + '\nTIMEOUT'
        return R


def cfg_text(consts, **kw):
    s = []
    if consts:
        s.append('CONSTANTS')
        for k, v in consts.items():
            s.append('  %s = %s' % (k, v) if not str(v).startswith('<-') else '  %s %s' % (k, v))
    for k in ('SPECIFICATION', 'CONSTRAINT', 'ACTION_CONSTRAINT', 'INVARIANT', 'PROPERTY', 'POSTCONDITION', 'VIEW', 'SYMMETRY'):
        v = kw.get(k)
        if v:
            for x in ([v] if isinstance(v, str) else v):
                s.append('%s %s' % (k, x))
    if not kw.get('deadlock'):
        s.append('CHECK_DEADLOCK FALSE')
    return '\n'.join(s) + '\n'


def spec_dir(work):
    d = os.path.join(work, 'spec')
    if os.path.isdir(d):
        shutil.rmtree(d)
    shutil.copytree(os.path.join(VERIF, 'spec'), d)
    return d


RE_STATES = re.compile(r'([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found')


def tlc_stats(out):
    m = None
    for m in RE_STATES.finditer(out):
        pass
    if not m:
        return 0, 0
    return int(m.group(1).replace(',', '')), int(m.group(2).replace(',', ''))


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == 'quick'
        self.work = os.path.join(BUILD, 'work', pid + '-' + str(os.getpid()))
        os.makedirs(self.work, exist_ok=True)
        self.specdir = spec_dir(self.work)
        self.t0 = time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], executions=0, trace_events=0,
                        models=[], scenarios=[], trace_states=0)
        self.violations = []
        self.known = []
        self.assumptions = []
        self.findings = load_findings(pid)
        self.nfile = 0

    def note(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)

    def elapsed(self):
        return time.time() - self.t0

    # -- exhaustive check of the specification itself
    def models(self, items):
        """items: list of dict(module, name, consts, inv, prop, spec, constraint, view, must(actions), timeout)"""
        def one(it):
            name = it.setdefault('name', it['module'].lower())
            cfg = os.path.join(self.specdir, 'M_%s.cfg' % name)
            open(cfg, 'w').write(cfg_text(it.get('consts', {}), SPECIFICATION=it.get('spec', 'Spec'), CONSTRAINT=it.get('constraint'),
                                          ACTION_CONSTRAINT=it.get('action_constraint'),
                                          INVARIANT=it.get('inv'), PROPERTY=it.get('prop'), VIEW=it.get('view'), SYMMETRY=it.get('sym'), deadlock=it.get('deadlock')))
            args = ['-config', cfg, '-workers', str(it.get('workers', 2)), '-metadir', os.path.join(self.work, 'md_' + name), '-noGenerateSpecTE'] + ([] if it.get('nocov') else ['-coverage', '1'])
            if it.get('sim'):
                args += ['-simulate', it['sim'], '-depth', str(it.get('depth', 50)), '-seed', str(self.seed)]
            args.append(it['module'])
            r = java(args, cwd=self.specdir, timeout=it.get('timeout', 600), mem=it.get('mem', '3g'), workers_par=True)
            return it, r
        items = [dict(i) for i in items]
        with cf.ThreadPoolExecutor(max_workers=max(1, NCPU // 2)) as ex:
            for it, r in ex.map(one, items):
                g, d = tlc_stats(r.stdout)
                bad = 'is violated' in r.stdout or 'Temporal properties were violated' in r.stdout or 'Deadlock reached' in r.stdout
                if bad:
                    p = self.save('model-%s.txt' % it['name'], r.stdout)
                    # the specification contradicts its own properties: machinery failure, not a finding about the code
                    raise ToolError('specification %s/%s violates its properties, see %s' % (it['module'], it['name'], p))
                if r.returncode != 0:
                    p = self.save('model-%s.txt' % it['name'], r.stdout)
                    raise ToolError('TLC failed on %s/%s (exit %s), see %s\n%s' % (it['module'], it['name'], r.returncode, p, r.stdout[-1500:]))
                # vacuity: every action of the model must have been taken
                never = []
                for m in re.finditer(r'^<(\w+) line [^>]*>: (\d+):(\d+)', r.stdout, re.M):
                    if m.group(1)[:4] != 'Init' and m.group(1) != 'Action' and int(m.group(3)) == 0 and m.group(1) not in it.get('may_be_idle', ()):
                        never.append(m.group(1))
                if never and not it.get('sim'):
                    raise ToolError('model %s: actions never taken: %s' % (it['name'], never))
                self.cov['states'] += d
                self.cov['transitions'] += g
                self.cov['models'].append(dict(module=it['module'], config=it['name'], constants=it.get('consts', {}), invariants=it.get('inv'), properties=it.get('prop'),
                                               distinct_states=d, states_generated=g))
                log('model %-28s %9d distinct states, %9d generated' % (it['name'], d, g))

    def save(self, name, text):
        d = os.path.join(BUILD, 'replays')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%s' % (self.pid, name))
        open(p, 'w').write(text)
        return p

    # -- trace validation
    def _tlc_traces(self, module, consts, files, inv, timeout):
        """validate each file (ndjson of traces); returns list of lists: furthest position per trace"""
        cfg = os.path.join(self.specdir, 'T_%s.cfg' % module)
        open(cfg, 'w').write(cfg_text(consts, SPECIFICATION='TSpec', CONSTRAINT='Track', INVARIANT=inv, POSTCONDITION='Report'))

        def one(f):
            out = f + '.res.json'
            if os.path.exists(out):
                os.unlink(out)
            r = java(['-config', cfg, '-workers', '1', '-metadir', f + '.md', '-noGenerateSpecTE', module], env=dict(TRACES=f, OUT=out), cwd=self.specdir, timeout=timeout, mem='3g')
            shutil.rmtree(f + '.md', ignore_errors=True)
            if r.returncode != 0 or not os.path.exists(out):
                p = self.save('tlc-%s.txt' % os.path.basename(f), r.stdout)
                m = re.search(r'Invariant (\w+) is violated', r.stdout)
                if m:
                    return ('inv', m.group(1), r.stdout, p)
                raise ToolError('TLC failed on traces %s (exit %s): see %s\n%s' % (f, r.returncode, p, r.stdout[-1800:]))
            g, d = tlc_stats(r.stdout)
            return ('ok', json.load(open(out)), g, d)
        with cf.ThreadPoolExecutor(max_workers=NCPU) as ex:
            return list(ex.map(one, files))

    def validate(self, label, traces, module, consts, replay=None, inv=None, timeout=800, chunk_events=None):
        """traces: list of dict(scn, cfg, ev, ...). Rejections are confirmed and reported."""
        if not traces:
            raise ToolError('%s: no traces recorded' % label)
        lines = []
        for t in traces:
            lines.append((json.dumps(dict(cfg=t['cfg'], ev=t['ev'])), t))
        total = sum(len(t['ev']) for t in traces)
        # deal traces round robin to chunks of comparable size
        n = max(1, min(NCPU, (total + 1500) // 3000))
        if chunk_events:
            n = max(n, (total + chunk_events - 1) // chunk_events)
        order = sorted(range(len(lines)), key=lambda i: -len(traces[i]['ev']))
        buckets = [[] for _ in range(n)]
        for k, i in enumerate(order):
            buckets[k % n].append(i)
        buckets = [b for b in buckets if b]
        files = []
        for b in buckets:
            self.nfile += 1
            f = os.path.join(self.work, 'tr_%s_%d.ndjson' % (re.sub(r'\W', '_', label), self.nfile))
            with open(f, 'w') as h:
                for i in b:
                    h.write(lines[i][0] + '\n')
            files.append(f)
        t0 = time.time()
        res = self._tlc_traces(module, consts, files, inv, timeout)
        rejected = []
        for b, r in zip(buckets, res):
            if r[0] == 'inv':
                raise ToolError('invariant %s violated while validating traces: %s' % (r[1], r[3]))
            for i, far in zip(b, r[1]):
                if far != len(traces[i]['ev']) + 1:
                    rejected.append((i, far))
            self.cov['trace_states'] += r[3]
        nrej = len(rejected)
        log('%-24s %6d traces, %8d events validated by %s in %.1fs: %d rejected' % (label, len(traces), total, module, time.time() - t0, nrej))
        self.cov['traces_validated_against_impl'] += len(traces) - nrej
        self.cov['trace_events'] += total
        if len(self.cov['samples']) < 6:
            for t in traces[:2]:
                self.cov['samples'].append(dict(scenario=t.get('scn'), config=t.get('cfg'), events=len(t['ev']), first=t['ev'][:6]))
        seen = set()
        lost = []
        for i, far in sorted(rejected, key=lambda x: len(traces[x[0]]['ev'])):
            e = traces[i]['ev'][far - 1] if 0 < far <= len(traces[i]['ev']) else {}
            key = (traces[i].get('scn'), e.get('e'), e.get('op'), e.get('what'))
            if key in seen:
                continue
            seen.add(key)
            if os.environ.get('VF_LIST'):
                log('   rejected: %s at %s %s' % (traces[i].get('scn'), far, json.dumps(e)))
                if int(os.environ.get('VF_SHOW', 0)) >= len(seen):
                    for x in traces[i]['ev'][max(0, far - int(os.environ.get('VF_TAIL', 10000))):far + 1]:
                        log('        ' + json.dumps(x))
                continue
            try:
                self.rejection(label, traces[i], far, module, consts, replay, inv)
            except NotRepeated as x:
                lost.append((x, i, far))
            if len(self.violations) >= 5 or len(lost) >= 5:
                break
        # what is rejected depends on something the replay does not fix (the order of a directory, say): one such
        # history decides nothing, several, recorded from the real code, do
        if lost and not self.violations:
            if len(lost) < 3:
                raise lost[0][0]
            _, i, far = lost[0]
            self.rejection(label, traces[i], far, module, consts, None, inv)
        return nrej

    def rejection(self, label, tr, far, module, consts, replay, inv):
        ev = tr['ev'][far - 1] if 0 < far <= len(tr['ev']) else {'e': 'end'}
        kf = self.match_finding(tr, ev)
        if kf:
            if kf['id'] not in [k['id'] for k in self.known]:
                self.known.append(kf)
            return
        if len(self.violations) >= 5:
            return
        # confirm: run the real code again, and the validation again
        for attempt in range(4):
            again = None
            if replay:
                again = replay(tr)
                if again is None:
                    raise ToolError('%s: rejected trace of %s could not be reproduced' % (label, tr.get('scn')))
            t2 = again or tr
            self.nfile += 1
            f = os.path.join(self.work, 'confirm_%d.ndjson' % self.nfile)
            open(f, 'w').write(json.dumps(dict(cfg=t2['cfg'], ev=t2['ev'])) + '\n')
            r = self._tlc_traces(module, consts, [f], inv, 300)[0]
            if not (r[0] == 'ok' and r[1][0] == len(t2['ev']) + 1):
                break
        else:
            raise NotRepeated('%s: rejection of %s did not repeat (re-runs accepted)' % (label, tr.get('scn')))
        far2 = r[1][0] if r[0] == 'ok' else 0
        rec = dict(property=self.pid, label=label, scenario=tr.get('scn'), schedule=tr.get('sched'), kind=tr.get('kind'), seed=self.seed, module=module, cfg=t2['cfg'],
                   rejected_at=far2, rejected_event=t2['ev'][far2 - 1] if 0 < far2 <= len(t2['ev']) else None, trace=t2['ev'])
        self.violate('%s at event %d %s' % (tr.get('scn'), far2, json.dumps(rec['rejected_event'])), rec)

    def violate(self, what, rec):
        p = self.save('violation-%d.json' % (len(self.violations) + 1), json.dumps(rec, indent=1))
        self.violations.append(dict(what=what, replay=p))
        print('VIOLATION property=%s replay=%s' % (self.pid, p), flush=True)
        log('  ' + what)

    def match_finding(self, tr, ev):
        for k in self.findings:
            m = k.get('match', {})
            if 'scn' in m and tr.get('scn') not in m['scn']:
                continue
            if any(str(ev.get(a)) != str(b) for a, b in m.get('event', {}).items()):
                continue
            return k
        return None

    # -- concurrency: explore scenarios of a harness under vsched
    def explore(self, binary, budget, bound=2, secs=60, only=None, weight=None):
        r = sh([binary, '--list'])
        if r.returncode:
            raise ToolError('%s --list: %s' % (binary, r.stdout))
        names = [x for x in r.stdout.split('\n') if x and (only is None or only(x))]
        if not names:
            raise ToolError('no scenarios in ' + binary)
        d = os.path.join(self.work, 'tr_' + os.path.basename(binary))
        os.makedirs(d, exist_ok=True)
        import queue, threading
        slots = queue.Queue()
        for i in range(NCPU):
            slots.put(i)

        def one(n):
            slot = slots.get()
            try:
                out = os.path.join(d, re.sub(r'\W', '_', n) + '.ndjson')
                b = int(budget * (weight(n) if weight else 1))
                p = subprocess.run([binary, '--scn', n, '--budget', str(b), '--seed', str(self.seed), '--bound', str(bound), '--secs', str(secs), '--out', out],
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=dict(os.environ, VS_PIN=str(slot)), timeout=secs * 3 + 120)
                if p.returncode:
                    raise ToolError('explorer failed on %s: %s %s' % (n, p.returncode, p.stderr[-400:]))
                st = json.loads(p.stdout.strip().splitlines()[-1])
                trs = []
                with open(out, errors='replace') as h:
                    for line in h:
                        trs.append(json.loads(line))
                return n, st, trs
            finally:
                slots.put(slot)
        t0 = time.time()
        traces, ex_total = [], 0
        with cf.ThreadPoolExecutor(max_workers=NCPU) as ex:
            for n, st, trs in ex.map(one, names):
                traces += trs
                ex_total += st['executions']
                self.cov['scenarios'].append({k: st[k] for k in ('scn', 'executions', 'traces', 'stuck', 'faults', 'full_depth', 'complete', 'random', 'max_points')})
        self.cov['executions'] += ex_total
        log('%s: %d scenarios, %d executions, %d distinct traces in %.1fs' % (os.path.basename(binary), len(names), ex_total, len(traces), time.time() - t0))
        return traces

    # -- sequential components: record histories of a harness (harness/seq.h)
    def seq(self, binary, env=None, timeout=600):
        d = os.path.join(self.work, 'sq_' + os.path.basename(binary))
        os.makedirs(d, exist_ok=True)
        e = dict(os.environ, VERIF_SEED=str(self.seed), VERIF_TIER=self.tier, SEQ_DIR=d)
        e.update(env or {})
        t0 = time.time()
        n = NCPU

        def one(i):
            out = os.path.join(d, 's%d.ndjson' % i)
            p = subprocess.run([binary, '--shard', '%d/%d' % (i, n), '--out', out], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e, timeout=timeout)
            if p.returncode:
                raise ToolError('%s failed: %s %s' % (os.path.basename(binary), p.returncode, p.stderr[-400:]))
            with open(out, errors='replace') as h:
                return [json.loads(x) for x in h]
        traces = []
        with cf.ThreadPoolExecutor(max_workers=n) as ex:
            for t in ex.map(one, range(n)):
                traces += t
        self.cov['executions'] += len(traces)
        kinds = {}
        for t in traces:
            for x in t['ev']:
                kinds[x['e']] = kinds.get(x['e'], 0) + 1
        self.cov.setdefault('operations', {})[os.path.basename(binary)] = kinds
        log('%s: %d histories, %d events in %.1fs' % (os.path.basename(binary), len(traces), sum(len(t['ev']) for t in traces), time.time() - t0))
        return traces

    def seqreplayer(self, binary, env=None):
        e = dict(os.environ, VERIF_SEED=str(self.seed), VERIF_TIER=self.tier, SEQ_DIR=self.work)
        e.update(env or {})

        def f(tr):
            out = os.path.join(self.work, 'sreplay.ndjson')
            p = subprocess.run([binary, '--scn', tr['scn'], '--out', out], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=200, env=e)
            if p.returncode:
                return None
            for line in open(out, errors='replace'):
                t = json.loads(line)
                if t['k'] == tr.get('k'):
                    return t
            return None
        return f

    def replayer(self, binary):
        def f(tr):
            out = os.path.join(self.work, 'replay.ndjson')
            p = subprocess.run([binary, '--scn', tr['scn'], '--seed', str(self.seed), '--replay', tr.get('sched', ''), '--kind', tr.get('kind', 'dfs'), '--out', out],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
            if p.returncode:
                return None
            try:
                return json.loads(open(out, errors='replace').readline())
            except (OSError, ValueError):
                return None
        return f

    def finish(self, level, extra=None):
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']), flush=True)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=self.cov, wall_s=round(self.elapsed(), 1),
                  assumptions=self.assumptions, violations=[v['what'] for v in self.violations])
        if extra:
            ev['coverage'].update(extra)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        tmp = os.path.join(VERIF, 'evidence', self.pid + '.json.tmp')
        json.dump(ev, open(tmp, 'w'), indent=1)
        os.replace(tmp, os.path.join(VERIF, 'evidence', self.pid + '.json'))
        shutil.rmtree(self.work, ignore_errors=True)
        log('%s %s: %.0fs, %d model states, %d traces, %d violations' % (self.pid, self.tier, self.elapsed(), self.cov['states'], self.cov['traces_validated_against_impl'], len(self.violations)))
        return 1 if self.violations else 0


def load_findings(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('findings', []) if k['property'] == pid and k.get('status') == 'open']
