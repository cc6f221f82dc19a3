"""Shared machinery of the checks: build the extractor, extract the current
source, run one rule, compare with the known findings, write the evidence."""
import importlib, json, os, subprocess, sys, tempfile, time, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor
from .prog import Prog, REPO

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(HERE, 'build')
CXXSTD = '-std=c++14'
FLAGS = [CXXSTD, '-DDART_HAS_RAPIDJSON', '-DDART_HAS_YAML', '-I' + REPO + '/include',
         '-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-Wno-everything']
TUS = {
    'drv': HERE + '/driver/drv.cc',
    'typed': HERE + '/driver/typed.cc',
    'generic': REPO + '/src/generic.cc',
    'heap': REPO + '/src/heap.cc',
    'buffer': REPO + '/src/buffer.cc',
}


def gc_off():
    import gc
    gc.disable()


class Broken(Exception):
    """The analysis itself could not be carried out."""


class Finding:
    def __init__(self, key, where, msg, trace=None):
        self.key, self.where, self.msg, self.trace = key, where, msg, trace or []


def build_extractor():
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, 'dartx')
    src = [HERE + '/tool/dartx.cc', HERE + '/tool/build.sh']
    h = hashlib.sha256(b''.join(open(s, 'rb').read() for s in src)).hexdigest()
    stamp = out + '.sum'
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h: return out
    tmp = out + '.%d' % os.getpid()
    r = subprocess.run(['/bin/bash', HERE + '/tool/build.sh', tmp], capture_output=True, text=True)
    if r.returncode: raise Broken('extractor does not build:\n' + r.stderr[-2000:])
    os.replace(tmp, out)
    with open(stamp, 'w') as f: f.write(h)
    return out


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.findings = {}
        self.obligations = 0
        self.discharged = 0
        self.samples = []
        self.functions = set()
        self.notes = {}
        self.assumptions = []
        self.units = {}
        self.counts = {}
        self._progs = {}
        self.tmp = tempfile.mkdtemp(prefix='dartcheck.')
        self.cache = os.environ.get('DARTCHECK_CACHE')   # development only

    # -------------------------------------------------------------- sources
    def extract(self, names):
        """Extract the named translation units from the current tree, in parallel."""
        tool = build_extractor()
        def one(n):
            if n in self._progs: return
            out = os.path.join(self.tmp, n + '.jl')
            if self.cache and os.path.exists(os.path.join(self.cache, n + '.jl')):
                out = os.path.join(self.cache, n + '.jl')
            else:
                src = TUS.get(n, n)
                cmd = [tool, '--out', out, '--root', REPO + '/include', '--root', REPO + '/src', '--root', HERE + '/driver', src, '--'] + FLAGS
                r = subprocess.run(cmd, capture_output=True, text=True)
                if r.returncode or not os.path.exists(out):
                    raise Broken('cannot analyse %s:\n%s' % (src, (r.stdout + r.stderr)[-3000:]))
            return n, out
        with ThreadPoolExecutor(4) as ex:
            got = [x for x in ex.map(one, names) if x]
        for n, out in got:
            p = Prog(out)
            self._progs[n] = p
            self.units[os.path.basename(TUS.get(n, n))] = len(p.fns)
    def prog(self, n):
        if n not in self._progs: self.extract([n])
        return self._progs[n]

    # ------------------------------------------------------------ parallel
    def pmap(self, work, items):
        """Run work(ctx, item) for every item over forked processes; merge what they report."""
        import multiprocessing as mp, pickle
        items = list(items)
        n = min(int(os.environ.get('DARTCHECK_JOBS', '8')), max(1, len(items)))
        rd = []
        for w in range(n):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    gc_off()
                    self.findings, self.obligations, self.discharged, self.samples = {}, 0, 0, []
                    self.functions, self.notes, self.counts = set(), {}, {}
                    err = None
                    try:
                        for it in items[w::n]: work(self, it)
                    except Broken as e: err = str(e)
                    except Exception:
                        import traceback
                        err = traceback.format_exc()
                    data = pickle.dumps((err, [(f.key, f.where, f.msg, [str(t) for t in f.trace]) for f in self.findings.values()],
                                         self.obligations, self.discharged, self.samples, self.functions, self.notes, self.counts))
                    with os.fdopen(wr, 'wb') as fh: fh.write(data)
                except BaseException: code = 3
                os._exit(code)
            os.close(wr)
            rd.append((pid, r))
        for pid, r in rd:
            with os.fdopen(r, 'rb') as fh: data = fh.read()
            os.waitpid(pid, 0)
            if not data: raise Broken('worker died')
            err, fs, ob, di, sm, fn, nt, ct = pickle.loads(data)
            if err: raise Broken(err)
            for k, w, m, t in fs: self.fail(k, w, m, t)
            self.obligations += ob
            self.discharged += di
            self.samples += sm[:max(0, 12 - len(self.samples))]
            self.functions |= fn
            for k, v in nt.items():
                if isinstance(v, list): self.notes.setdefault(k, []).extend(v)
                else: self.notes[k] = v
            for k, v in ct.items(): self.counts[k] = self.counts.get(k, 0) + v
    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    # ----------------------------------------------------------- reporting
    def ob(self, sample=None, ok=True):
        """One obligation was examined."""
        self.obligations += 1
        if ok: self.discharged += 1
        if sample is not None and len(self.samples) < 12: self.samples.append(sample)
    def fail(self, key, where, msg, trace=None):
        if key not in self.findings: self.findings[key] = Finding(key, where, msg, trace)
    def undecided(self, what):
        self.notes.setdefault('not_decided', []).append(what)
    def require(self, cond, msg):
        if not cond: raise Broken(msg)
    def floor(self, n, least, what):
        if n < least: raise Broken('%s: only %d found, at least %d expected' % (what, n, least))


def known():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p): return {}
    out = {}
    for e in json.load(open(p))['findings']:
        if e['status'] == 'known': out.setdefault(e['property'], {})[e['key']] = e
    return out


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv: tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    ctx = Ctx(pid, tier, seed)
    try:
        mod = importlib.import_module('dartcheck.rules.' + pid.lower())
        sys.setrecursionlimit(100000)
        try:
            ctx.extract(mod.UNITS)
            mod.run(ctx)
        except Broken as e:
            print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
            return 2
        kn = known().get(pid, {})
        new = [f for k, f in ctx.findings.items() if k not in kn]
        old = [f for k, f in ctx.findings.items() if k in kn]
        cov = {
            'obligations': ctx.obligations,
            'discharged': ctx.discharged,
            'checker_cmd': 'python3 check.py %s --tier %s' % (pid, tier),
            'trusted_base': ['clang 18 front end and CFG construction', 'tool/dartx.cc', 'dartcheck/*.py', 'the library models named under assumptions'],
            'rule': mod.RULE,
            'explanation': mod.RULE,
            'samples': ctx.samples or ['(none)'],
            'functions_analysed': len(ctx.functions),
            'units': ctx.units,
            'known_findings_seen': len(old),
        }
        cov.update(ctx.notes)
        cov.update(ctx.counts)
        ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': mod.LEVEL, 'coverage': cov,
              'assumptions': getattr(mod, 'ASSUMES', []) + ctx.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
        os.makedirs(HERE + '/evidence', exist_ok=True)
        with open(HERE + '/evidence/%s.json' % pid, 'w') as f: json.dump(ev, f, indent=1, default=str)
        for f in old: print('KNOWN-FINDING: property=%s %s: %s' % (pid, f.where, f.msg))
        print('%s: %d obligations over %d functions, %d findings (%d known), %.1f s' % (pid, ctx.obligations, len(ctx.functions), len(ctx.findings), len(old), time.time() - t0))
        if new:
            rp = HERE + '/evidence/%s.violations.txt' % pid
            with open(rp, 'w') as fh:
                for f in new:
                    fh.write('%s\n  key: %s\n  %s\n' % (f.where, f.key, f.msg))
                    for t in f.trace: fh.write('    %s\n' % (t,))
            for f in new[:40]: print('  %s: %s  [%s]' % (f.where, f.msg, f.key))
            print('VIOLATION property=%s replay=%s' % (pid, rp))
            return 1
        return 0
    finally:
        shutil.rmtree(ctx.tmp, ignore_errors=True)
