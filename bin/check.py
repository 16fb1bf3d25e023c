#!/usr/bin/env python3
"""Decides one property:  check.py <ID>   (tier and seed from VERIF_TIER / VERIF_SEED)
                          check.py --replay FILE

1. TLC enumerates the client behaviours of spec/Plan_<ID>.tla  -> plan.ndjson
2. the harnesses (compiled from /repo's working tree) replay the plan into the real library and record traces
3. TLC validates every recorded event against spec/Trace.tla (with the Java accelerators of java/), and a sample of
   the small events again with the plain TLA+ definitions only
4. TLC checks the design level models attached to the property
exit 0: accepted;  exit 1: VIOLATION (confirmed by a second execution);  exit 2: the machinery itself failed.
"""
import sys, os, json, subprocess, time, threading, queue, re, hashlib, shutil, random
from concurrent.futures import ThreadPoolExecutor, as_completed
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(VERIF, 'bin'))
import props
TLA = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CLASSES = os.path.join(VERIF, 'work', 'classes')
SPEC = os.path.join(VERIF, 'spec')
HARN = os.path.join(VERIF, 'harness')
NCPU = os.cpu_count() or 8
T0 = time.time()

def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)

def die(msg):
    print('ERROR', msg, flush=True)
    os._exit(2)

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

def ensure_classes():
    src = os.path.join(VERIF, 'java', 'FFOverrides.java')
    cls = os.path.join(CLASSES, 'FFOverrides.class')
    stamp = os.path.join(CLASSES, 'stamp')
    h = hashlib.sha1(open(src, 'rb').read()).hexdigest()
    if os.path.exists(cls) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    tmp = CLASSES + '.tmp%d' % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    r = run(['javac', '-cp', TLA, '-d', tmp, src])
    if r.returncode != 0:
        die('javac failed\n' + r.stdout)
    open(os.path.join(tmp, 'stamp'), 'w').write(h)
    shutil.rmtree(CLASSES, ignore_errors=True)
    try:
        os.rename(tmp, CLASSES)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)

TLC_STATS = re.compile(r'(\d+) states generated, (\d+) distinct states found')
def tlc(module, cfg, env, work, accel=True, xmx='1600m', timeout=850, extra=(), workers='1'):
    md = os.path.join(work, 'md_%s_%d' % (module, random.randrange(10**9)))
    cp = (CLASSES + ':' + TLA) if accel else TLA
    os.makedirs(md, exist_ok=True)
    cmd = ['java', '-Djava.io.tmpdir=' + md, '-XX:+UseSerialGC', '-Xss128m', '-Xmx' + xmx, '-XX:TieredStopAtLevel=4']
    if accel:
        cmd.append('-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:FFOverrides')
    cmd += ['-cp', cp, 'tlc2.TLC', '-workers', workers, '-metadir', md, '-noGenerateSpecTE', '-config', cfg] + list(extra) + [module + '.tla']
    e = dict(os.environ)
    e.update(env)
    try:
        r = run(cmd, cwd=SPEC, env=e, timeout=timeout)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as ex:
        out, rc = (ex.stdout or b'').decode(errors='replace') if isinstance(ex.stdout, bytes) else (ex.stdout or ''), 124
    shutil.rmtree(md, ignore_errors=True)
    m = TLC_STATS.findall(out)
    st = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return rc, out, st

class Check:
    def __init__(self, pid, work=None):
        self.pid = pid
        self.P = props.PROPS[pid]
        self.tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.work = work or os.path.join(VERIF, 'work', pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.trans = 0
        self.events = 0
        self.pure_events = 0
        self.lock = threading.Lock()
        self.crashes = []
        self.unfinished = []
        self.rejected = []      # (event dict, build)
        self.samples = []
        self.cases_run = 0
        self.opcount = {}
        self.models = []
        self.env = {'VERIF_SEED': str(self.seed), 'VERIF_TIER': self.tier}

    # ---------------------------------------------------------------- plan
    def make_plan(self):
        plan = os.path.join(self.work, 'plan.ndjson')
        env = dict(self.env, PLAN_OUT=plan)
        rc, out, st = tlc(self.P['plan'], 'Plan.cfg', env, self.work, accel=False, xmx='3000m')
        if rc != 0 or not os.path.exists(plan):
            die('plan generation failed\n' + out[-3000:])
        self.plan = plan
        self.plan_lines = open(plan).read().splitlines()
        log('plan: %d cases' % len(self.plan_lines))

    # ---------------------------------------------------------------- build
    def build(self, b):
        exe = os.path.join(self.work, 'h_%s' % b['ty'] + ('_' + b['src'] if b.get('multi') else ''))
        b['exe'] = exe
        base = ['-std=gnu++17', b.get('opt', '-O1'), '-DNDEBUG', '-UDEBUG', '-march=haswell', '-fopenmp', '-w',
                '-I' + os.path.join(HARN, 'include'), '-I' + HARN, '-I' + REPO]
        cmd = [b.get('cxx', 'g++')] + base + ['-DVT=VT_%s' % b['vt'], '-DVTNAME="%s"' % b['ty']] + b.get('flags', []) + \
              [os.path.join(HARN, b['src'] + '.cpp')] + [os.path.join(HARN, x) for x in b.get('extra_src', [])] + \
              ['-o', exe] + b.get('libs_pre', []) + ['-lgivaro', '-lgmpxx', '-lgmp', '-lopenblas'] + b.get('libs', [])
        objs = [self.libf[x].result() for x in b.get('repolibs', [])]
        if objs:
            i = cmd.index('-o')
            cmd[i:i] = objs
        t = time.time()
        r = run(cmd)
        b['tcomp'] = time.time() - t
        if r.returncode != 0 and b.get('repolibs') and 'undefined reference to' in r.stdout and ' error: ' not in r.stdout.replace('collect2: error: ', ''):
            # a routine declared by the installed headers is missing from the compiled libraries
            syms = sorted(set(re.findall(r"undefined reference to `([^']*)'", r.stdout)))
            with self.lock:
                self.crashes.append(dict(build=b, case=dict(op='link', ty=b['ty'], missing=syms[:20]), at=-1, kind='missing symbols', confirmed=True, err=', '.join(syms)[:800]))
            b['exe'] = None
            return None
        if r.returncode != 0:
            die('compilation of %s for %s failed\n%s\n%s' % (b['src'], b['ty'], ' '.join(cmd), r.stdout[-4000:]))
        return exe

    def repolib(self, name):
        base = ['-std=gnu++17', '-O1', '-DNDEBUG', '-UDEBUG', '-march=haswell', '-fopenmp', '-w', '-I' + os.path.join(HARN, 'include'), '-I' + REPO]
        obj = os.path.join(self.work, 'lib_' + name + '.o')
        cmd = ['g++'] + base + ['-c', os.path.join(REPO, 'fflas-ffpack/interfaces/libs', name + '.C'), '-o', obj]
        r = run(cmd)
        if r.returncode != 0:
            die('compilation of %s failed\n%s' % (name, r.stdout[-4000:]))
        return obj

    # ---------------------------------------------------------------- run
    def harness(self, b, plan, out, start=0, only=None, timeout=800):
        prog = out + '.progress'
        cmd = [b['exe'], plan, out, prog, str(start)] + ([str(only)] if only is not None else [])
        env = dict(os.environ, OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS=b.get('threads', '1'), VH_CASE_TIMEOUT=str(b.get('case_timeout', 60)), VERIF_SCRATCH=self.work)
        env.update(b.get('env', {}))
        with open(out + '.err', 'w') as ef:
            try:
                rc = subprocess.run(cmd, stdout=ef, stderr=subprocess.STDOUT, env=env, timeout=timeout, cwd=self.work).returncode
            except subprocess.TimeoutExpired:
                rc = 124
        try:
            at = int(open(prog).read().split()[0])
        except Exception:
            at = None
        return rc, at

    def run_build(self, b):
        """runs the whole plan through one harness; returns the trace file"""
        out = os.path.join(self.work, 'trace_%s_%s.ndjson' % (b['src'], b['ty']))
        open(out, 'w').close()
        if b['exe'] is None:
            return out
        start, ncr, bad = 0, 0, 0
        while True:
            rc, at = self.harness(b, self.plan, out, start)
            if rc == 0:
                break
            if at is None or at < 0:
                die('harness %s %s failed rc=%d\n%s' % (b['src'], b['ty'], rc, open(out + '.err').read()[-2000:]))
            # drop a partial last line
            data = open(out, 'rb').read()
            if data and not data.endswith(b'\n'):
                open(out, 'wb').write(data[:data.rfind(b'\n') + 1])
            err = open(out + '.err', errors='replace').read()[-800:]
            if rc == 2:
                die('harness %s %s: %s' % (b['src'], b['ty'], err))
            o2 = out + '.re'
            rcs = []
            for _ in range(1 if rc in (-14, 124) else 2):
                open(o2, 'w').close()
                r2, _a = self.harness(b, self.plan, o2, 0, only=at, timeout=200)
                rcs.append(r2)
            kind = {77: 'exception', -14: 'hang', 124: 'hang'}.get(rc, 'crash rc=%d' % rc)
            case = json.loads(self.plan_lines[at])
            with self.lock:
                self.crashes.append(dict(build=b, case=case, at=at, kind=kind, confirmed=all(x != 0 for x in rcs), err=err))
                c = self.crashes[-1]
            start = at + 1
            ncr += 1
            what = dict(case, kind=kind)
            what.update({'case.' + k: v for k, v in case.items()})
            if c['confirmed'] and self.known(what) is None:
                # each confirmed one is a violation already: do not spend the time of the check on repeating it
                bad += 60 if kind == 'hang' else 10
            if ncr > 40 or bad >= 120 or (bad and time.time() - T0 > 180):
                log('too many crashes in', b['ty'])
                break
        return out

    # ---------------------------------------------------------------- validate
    def validate(self, lines, accel=True, tag='', depth=0, timeout=None):
        timeout = timeout or (600 if self.tier == 'quick' else 3000)
        f = os.path.join(self.work, 'shard_%s_%d.ndjson' % (tag, random.randrange(10**9)))
        with open(f, 'w') as g:
            g.writelines(lines)
        rc, out, st = tlc(self.P.get('trace', 'Trace'), 'Trace.cfg', dict(self.env, TRACE=f), self.work, accel=accel, timeout=timeout)
        rej = [int(x) for x in re.findall(r'<<"REJECTED", (\d+),', out)]
        ok = 'Model checking completed. No error has been found' in out
        os.unlink(f)
        if ok and st[1] == len(lines) + 1:
            return rej, st
        if rc == 124 and not accel:
            return rej, None        # the plain definitions are slow on some inputs: only a prefix was evaluated
        keep = os.path.join(self.work, 'tlc_fail_%s.txt' % tag)
        open(keep, 'w').write(out)
        open(keep + '.ndjson', 'w').writelines(lines)
        k = st[1]       # the event whose evaluation failed (1-based): k - 1 events were consumed
        if rc == 124 and accel:
            self.unfinished.append('%s: %d events not decided in %d s' % (tag, len(lines), timeout))
            return rej, st
        if rc == 124 or not (1 <= k <= len(lines)) or 'OutOfMemory' in out or \
           not ('verflow' in out or 'evaluat' in out or 'Attempted to' in out or 'CHOOSE' in out or 'out of bounds' in out or 'exception' in out):
            die('TLC could not evaluate a trace (rc=%d); see %s\n%s' % (rc, keep, out[-2500:]))
        # The observed memory is so far from what the routine may leave (e.g. an index outside its range) that the
        # specification assigns it no meaning: the event is not allowed.  Go on with the next self-contained event.
        log('event %d of a %s shard cannot be evaluated: rejected (%s)' % (k, tag, keep))
        n = k
        while n < len(lines) and '"set":{}' in lines[n]:
            n += 1
        if depth >= 8:      # violations enough
            return sorted(set(rej + [k])), st
        more, st2 = self.validate(lines[n:], accel, tag, depth + 1) if n < len(lines) else ([], (1, 1))
        return sorted(set(rej + [k] + [n + r for r in more])), (st[0] + st2[0], st[1] + st2[1])

    def shards(self, path, maxbytes, b):
        cur, size = [], 0
        with open(path, errors='replace') as f:
            group = []
            def flush_group():
                nonlocal cur, size
                cur.extend(group)
                size += sum(map(len, group))
            for line in f:
                try:
                    json.loads(line)
                except ValueError:
                    # the library overwrote the memory of the harness while it was writing this event
                    m = re.match(r'\{"op":"(\w+)","c":(\d+)', line)
                    at = int(m.group(2)) if m else 0
                    with self.lock:
                        self.crashes.append(dict(build=b, case=json.loads(self.plan_lines[at]), at=at, kind='corrupted event', confirmed=True, err=line[:400]))
                    continue
                if '"set":{}' not in line and group:
                    flush_group(); group = []
                    if size > maxbytes:
                        yield cur
                        cur, size = [], 0
                group.append(line)
            if group:
                flush_group()
            if cur:
                yield cur

    def process(self, ex, b, lines, futs):
        rej, st = self.validate(lines, tag=b['ty'])
        with self.lock:
            self.states += st[1]
            self.trans += st[0] - 1
            self.events += len(lines)
            for i in rej:
                self.rejected.append((json.loads(lines[i - 1]), b))
        return rej

    # ---------------------------------------------------------------- models
    def run_models(self):
        for m in self.P.get('models', []):
            cfg = m['cfg'] if self.tier == 'quick' else m.get('cfg_thorough', m['cfg'])
            rc, out, st = tlc(m['module'], cfg, self.env, self.work, accel=m.get('accel', False), xmx='3000m', workers=m.get('workers', '2'), timeout=m.get('timeout', 600), extra=m.get('extra', ()))
            ok = 'No error has been found' in out
            self.models.append(dict(module=m['module'], cfg=cfg, states=st[1], transitions=st[0], ok=ok))
            with self.lock:
                self.states += st[1]
                self.trans += st[0]
            if not ok:
                die('design model %s failed\n%s' % (m['module'], out[-3000:]))
            log('model %s/%s: %d distinct states' % (m['module'], cfg, st[1]))

    # ---------------------------------------------------------------- known findings
    def known(self, what):
        """what: dict with op, ty, args/case...; returns the matching known finding or None"""
        for k in KNOWN:
            if k['property'] != self.pid:
                continue
            if all(match_val(what.get(f), v) for f, v in k['match'].items()):
                return k
        return None

    # ---------------------------------------------------------------- main
    def main(self):
        ensure_classes()
        builds = [dict(b) for b in self.P['builds'](self.tier)]
        planT = threading.Thread(target=self.make_plan)
        planT.start()
        modT = threading.Thread(target=self.run_models)
        modT.start()
        shard_bytes = 2500000
        pure_pool = []
        pmax, pmaxw = self.P.get('pure_max', (2600, 1200))
        with ThreadPoolExecutor(NCPU) as ex:
            libs = []
            for b in builds:
                libs += [x for x in b.get('repolibs', []) if x not in libs]
            self.libf = {x: ex.submit(self.repolib, x) for x in libs}
            cf = {ex.submit(self.build, b): b for b in builds}
            runf, valf = {}, {}
            def after_build(b):
                planT.join()
                return self.run_build(b)
            for f in as_completed(cf):
                f.result()
                b = cf[f]
                runf[ex.submit(after_build, b)] = b
            log('built %d harnesses (max %.0fs)' % (len(builds), max(b['tcomp'] for b in builds)))
            for f in as_completed(runf):
                b = runf[f]
                path = f.result()
                n = 0
                small = []
                cases = set()
                for lines in self.shards(path, shard_bytes, b):
                    n += len(lines)
                    for ln in lines:
                        m = re.match(r'\{"op":"(\w+)","c":(\d+)', ln)
                        self.opcount[m.group(1)] = self.opcount.get(m.group(1), 0) + 1
                        cases.add(m.group(2))
                        if len(ln) < (pmaxw if '"wide":true' in ln else pmax) and '"set":{}' not in ln:
                            small.append(ln)
                    valf[ex.submit(self.process, ex, b, lines, valf)] = b
                self.cases_run += len(cases)
                rs = random.Random(self.seed)
                k = self.P.get('pure', 12) * (8 if self.tier == 'thorough' else 1)
                pure_pool.extend(rs.sample(small, min(k, len(small))))
                if small and len(self.samples) < 4:
                    self.samples.append(json.loads(min(small, key=len)))
                log('%s/%s: %d events' % (b['src'], b['ty'], n))
            pf = {}
            rs = random.Random(self.seed)
            rs.shuffle(pure_pool)
            cap = self.P.get('pure_cap', 120) * (8 if self.tier == 'thorough' else 1)
            pure_pool = pure_pool[:cap]
            nsh = min(4, max(1, len(pure_pool) // 12))
            for i in range(nsh):
                part = pure_pool[i::nsh]
                if part:
                    pf[ex.submit(self.validate, part, False, 'pure%d' % i, 0, 45 if self.tier == 'quick' else 400)] = part
            for f in as_completed(valf):
                f.result()
            rejkeys = set(json.dumps(e, sort_keys=True) for e, _ in self.rejected)
            for f in as_completed(pf):
                rej, st = f.result()
                part = pf[f]
                if st is None:
                    log('plain evaluation of a sample ran out of time')
                    continue
                self.pure_events += len(part)
                self.states += st[1]
                self.trans += st[0] - 1
                pr = set(rej)
                for i, ln in enumerate(part, 1):
                    a = json.dumps(json.loads(ln), sort_keys=True) in rejkeys
                    if a != (i in pr):
                        die('accelerated and plain TLA+ verdicts differ on ' + ln[:1500])
        modT.join()
        log('validated %d events (%d also with the plain definitions), %d rejected, %d crashes' % (self.events, self.pure_events, len(self.rejected), len(self.crashes)))
        return self.verdict()

    def verdict(self):
        viol = []
        knownhits = {}
        summ = {}
        for e, b in self.rejected:
            k = '%s/%s' % (e['op'], e['R'].get('ty'))
            summ[k] = summ.get(k, 0) + 1
        for c in self.crashes:
            k = '%s %s/%s' % (c['kind'], c['case'].get('op'), c['case'].get('ty'))
            summ[k] = summ.get(k, 0) + 1
        if summ:
            log('not accepted:', ', '.join('%s:%d' % (k, v) for k, v in sorted(summ.items())))
            if os.environ.get('VERIF_KEEP'):
                with open(os.path.join(self.work, 'rejected.ndjson'), 'w') as f:
                    for e, b in self.rejected:
                        f.write(json.dumps(e) + '\n')
        for e, b in self.rejected:
            case = json.loads(self.plan_lines[e['c']])
            what = dict(e['a'], op=e['op'], ty=e['R'].get('ty'), p=e['R']['p'], ret=e.get('ret'), case=case)
            what.update({'case.' + k: v for k, v in case.items()})
            k = self.known(what)
            if k:
                knownhits.setdefault(k['what'], []).append(e['c'])
                continue
            viol.append(('rejected', e, b, case))
        for c in self.crashes:
            what = dict(c['case'], kind=c['kind'])
            what.update({'case.' + k: v for k, v in c['case'].items()})
            k = self.known(what)
            if k:
                knownhits.setdefault(k['what'], []).append(c['at'])
                continue
            if not c['confirmed']:
                log('unconfirmed %s in case %s (ignored)' % (c['kind'], c['at']))
                continue
            viol.append(('crash', c, c['build'], c['case']))
        for w in knownhits:
            print('KNOWN-FINDING: property=%s %s (%d cases)' % (self.pid, w, len(knownhits[w])), flush=True)
        out = []
        seen = set()
        rdir = os.path.join(VERIF, 'work', 'replay')
        os.makedirs(rdir, exist_ok=True)
        for kind, e, b, case in viol:
            at = e['c'] if kind == 'rejected' else e['at']
            if (at, b['ty']) in seen or len(out) >= 5:
                continue
            seen.add((at, b['ty']))
            if kind == 'rejected' and not self.confirm(b, at):
                log('rejection of case %d (%s) not confirmed by a second execution: ignored' % (at, b['ty']))
                continue
            path = os.path.join(rdir, '%s_%s_%d.json' % (self.pid, b['ty'], at))
            json.dump(dict(property=self.pid, kind=kind, case=case, build={k: v for k, v in b.items() if k != 'exe'},
                           event=e if kind == 'rejected' else dict(kind=e['kind'], err=e['err']), tier=self.tier, seed=self.seed), open(path, 'w'), indent=1)
            out.append(path)
            print('VIOLATION property=%s replay=%s' % (self.pid, path), flush=True)
            print('  %s: %s' % (kind if kind == 'rejected' else e['kind'], json.dumps(case)), flush=True)
        self.evidence(len(out))
        if self.unfinished and not out:
            die('; '.join(self.unfinished))
        return 1 if out else 0

    def confirm(self, b, at):
        # some routines draw random primes from the clock: several attempts
        for _ in range(5):
            o = os.path.join(self.work, 'confirm_%s_%d.ndjson' % (b['ty'], at))
            open(o, 'w').close()
            rc, _a = self.harness(b, self.plan, o, 0, only=at, timeout=200)
            if rc != 0:
                return True
            lines = open(o).read().splitlines(True)
            if lines and self.validate(lines, tag='confirm')[0]:
                return True
        return False

    def evidence(self, nv):
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level='model_checking',
                  coverage=dict(states=self.states, transitions=self.trans, traces_validated_against_impl=self.cases_run,
                                events_validated=self.events, events_validated_without_accelerators=self.pure_events,
                                calls_by_routine=self.opcount, design_models=self.models,
                                plan_cases=len(self.plan_lines), samples=[trim(x) for x in self.samples[:3]]),
                  assumptions=self.P.get('assumptions', []) + [
                      'the guarantee covers the inputs the plan enumerates/samples (seeded), not all inputs',
                      'g++ -O1 -march=haswell build of the headers in /repo, OpenBLAS and Givaro as installed'],
                  wall_s=round(time.time() - T0, 2), violations=nv)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w'), indent=1)

def trim(e):
    s = json.dumps(e)
    return e if len(s) < 3000 else dict(op=e.get('op'), a=e.get('a'), R=e.get('R'))

def match_val(x, v):
    if isinstance(v, dict):
        if 'in' in v: return x in v['in']
        if 'ge' in v and not (x is not None and x >= v['ge']): return False
        if 'le' in v and not (x is not None and x <= v['le']): return False
        if 'ne' in v and x == v['ne']: return False
        return True
    return x == v

KNOWN = []
def load_known():
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#') and not l.startswith('fixed:'):
                KNOWN.append(json.loads(l))

def replay(path):
    r = json.load(open(path))
    c = Check(r['property'], os.path.join(VERIF, 'work', 'replay_' + r['property']))
    ensure_classes()
    b = r['build']
    b.pop('exe', None)
    ex = ThreadPoolExecutor(NCPU)
    c.libf = {x: ex.submit(c.repolib, x) for x in b.get('repolibs', [])}
    if c.build(b) is None:
        print('missing symbols:', c.crashes[0]['err'])
        sys.exit(1)
    c.plan = os.path.join(c.work, 'plan.ndjson')
    case = r['case']
    open(c.plan, 'w').write(json.dumps(case) + '\n')
    o = os.path.join(c.work, 'out.ndjson')
    open(o, 'w').close()
    rc, _ = c.harness(b, c.plan, o)
    print('harness rc', rc)
    lines = open(o).read().splitlines(True)
    if lines:
        rej, st = c.validate(lines)
        print('events', len(lines), 'rejected', rej)
        for i in rej:
            print(lines[i - 1][:6000])
        sys.exit(1 if rej or rc else 0)
    sys.exit(1 if rc else 0)

if __name__ == '__main__':
    load_known()
    if sys.argv[1] == '--replay':
        replay(sys.argv[2])
    try:
        rc = Check(sys.argv[1]).main()
    except SystemExit:
        raise
    except BaseException as ex:
        import traceback
        traceback.print_exc()
        die(repr(ex))
    sys.stdout.flush()
    w = os.path.join(VERIF, 'work', sys.argv[1])
    if rc == 0 and not os.environ.get('VERIF_KEEP'):
        shutil.rmtree(w, ignore_errors=True)
    os._exit(rc)
