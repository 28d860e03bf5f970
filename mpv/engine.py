"""Compiling, running, judging, shrinking and reporting generated cases."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
HARNESS = os.path.join(VERIF, 'harness')
EVIDENCE = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
COMPILE_TIMEOUT = 400
ENV = {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
       'LC_ALL': 'C.UTF-8', 'HOME': os.environ.get('HOME', '/root'),
       'TMPDIR': os.environ.get('TMPDIR', '/tmp')}


class Infra(Exception):
    pass


# ------------------------------------------------------------ configurations
class Cfg:
    def __init__(self, name, cxx, std, defs=(), impl=None, seq=5, one_of=20,
                 oce=10, string=32):
        self.name, self.cxx, self.std = name, cxx, std
        self.defs = list(defs)
        self.impl = impl or {98: 1998, 11: 2011}.get(std, 2014)
        if impl:
            self.defs.append('BOOST_METAPARSE_STD=%d' % impl)
        for macro, v, d in (('SEQUENCE', seq, 5), ('ONE_OF', one_of, 20),
                            ('ONE_CHAR_EXCEPT', oce, 10), ('STRING', string, 32)):
            if v != d:
                self.defs.append('BOOST_METAPARSE_LIMIT_%s_SIZE=%d' % (macro, v))
        old = self.impl == 1998
        self.old = old
        self.string_limit = string
        self.max_text = string if old else 320
        self.limits = {
            'seq': seq - 1 if old else 10, 'apply': min(seq - 1, 8),
            'one_of': one_of if old else 24, 'oce': oce - 1 if old else 14}
        # what the library admits ('limits' bounds what random trees use)
        self.hard = dict(self.limits, apply=min(seq - 1, 19))
        if not old:
            self.hard.update(seq=70, one_of=70, oce=70)
        # the C++98 representation cannot hold EOF as a character
        self.no_ff = old

    def flags(self):
        f = ['-w', '-O0', '-std=c++%d' % self.std, '-ftemplate-depth=4096',
             '-ftemplate-backtrace-limit=4', '-fno-diagnostics-color']
        if self.cxx == 'g++':
            f += ['-fmax-errors=8']
        else:
            f += ['-fno-crash-diagnostics', '-ferror-limit=8', '-fbracket-depth=8192',
                  '-fconstexpr-steps=100000000']
        f += ['-D' + d for d in self.defs]
        return f

    def __repr__(self):
        return self.name


class CfgTable(dict):
    """Named configurations; 'dyn:...' names describe themselves."""
    def __missing__(self, name):
        if not name.startswith('dyn:'):
            raise KeyError(name)
        _, cxx, std, impl, seq, one_of, oce, string = name.split(':')
        c = self[name] = Cfg(name, cxx, int(std), impl=int(impl) or None, seq=int(seq), one_of=int(one_of),
                             oce=int(oce), string=int(string))
        return c


CFGS = CfgTable()


def _cfg(*a, **k):
    c = Cfg(*a, **k)
    CFGS[c.name] = c


for _s in (98, 11, 14, 17, 20):
    _cfg('g%d' % _s, 'g++', _s)
    _cfg('c%d' % _s, 'clang++', _s)
_cfg('g17i98', 'g++', 17, impl=1998)
_cfg('g20i11', 'g++', 20, impl=2011)
_cfg('c17i98', 'clang++', 17, impl=1998)
_cfg('c20i11', 'clang++', 20, impl=2011)
_cfg('g98L', 'g++', 98, seq=9, one_of=12, oce=16, string=44)
_cfg('c98L', 'clang++', 98, seq=7, one_of=9, oce=7, string=48)
_cfg('g98S', 'g++', 98, seq=5, one_of=6, oce=4, string=20)
_cfg('g11L', 'g++', 11, seq=8, string=128)
_cfg('g98M', 'g++', 98, seq=20, one_of=20, oce=30, string=34)
_cfg('g98X', 'g++', 98, seq=12, one_of=20, oce=12, string=100)
_cfg('c17M', 'clang++', 17, seq=20, string=100)
_cfg('c14L', 'clang++', 14, seq=7, string=600)
_cfg('g17L', 'g++', 17, seq=6, string=2048)
_cfg('g17x', 'g++', 17, seq=4, one_of=5, oce=3, string=7)


# ------------------------------------------------------------------- running
def run(cmd, timeout=COMPILE_TIMEOUT, cwd=None, stdin=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         stdin=subprocess.DEVNULL, cwd=cwd, env=ENV,
                         start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.communicate()
        return None, b'', b'timeout'
    return p.returncode, out, err


class Case:
    """One generated case.  Subclasses define the C++ code and the oracle."""
    registry = {}
    headers = ()

    def __init_subclass__(cls, **k):
        super().__init_subclass__(**k)
        Case.registry[cls.__name__] = cls

    def decls(self, cfg, k):
        return ''

    def code(self, cfg, k):
        raise NotImplementedError

    def judge(self, cfg, payload):
        """None when the payload is what the property demands, else a text."""
        raise NotImplementedError

    def key(self):
        return json.dumps(self.to_json(), sort_keys=True)

    def size(self):
        return len(self.key())

    def shrinks(self):
        return ()

    def nontrivial(self):
        return True

    def labels(self):
        return ()

    def applicable(self, cfg):
        return True

    def to_json(self):
        raise NotImplementedError

    def show(self):
        return self.key()


class Failure:
    def __init__(self, case, cfg, kind, detail):
        self.case, self.cfg, self.kind, self.detail = case, cfg, kind, detail


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='mpv-%s-' % prop)
        # the compilers' temporary files go where close() removes them
        ENV['TMPDIR'] = os.path.join(self.scratch, 'tmp')
        os.mkdir(ENV['TMPDIR'])
        self.pool = cf.ThreadPoolExecutor(JOBS)
        self.lock = threading.Lock()
        self.evaluations = 0
        self.distinct = set()
        self.nontrivial = set()
        self.samples = []
        self.labels = {}
        self.cfg_counts = {}
        self.failures = []
        self.infra = []
        self.isolated = 0
        self.pch = {}
        self.serial = 0
        self.discarded = 0
        self.pairs = {}
        self.rule = ''
        self.assumptions = []
        self.extra = {}

    # ------------------------------------------------------------- plumbing
    def quick(self):
        return self.tier == 'quick'

    def n(self, quick, thorough):
        return quick if self.tier == 'quick' else thorough

    def newdir(self):
        with self.lock:
            self.serial += 1
            n = self.serial
        d = os.path.join(self.scratch, 'b%d' % n)
        os.mkdir(d)
        return d

    def includes(self, cfg):
        return ['-I' + HARNESS, '-I' + os.path.join(REPO, 'include')]

    def check_deps(self, depfile):
        """The library under test must come from the repository."""
        try:
            txt = open(depfile).read()
        except OSError:
            return
        if re.search(r'/usr/(local/)?include/boost/metaparse', txt):
            raise Infra('system copy of metaparse was used: ' + depfile)

    def get_pch(self, cfg, header='mpv_base.hpp'):
        """Extra flags to use the precompiled harness header (or [] )."""
        key = (cfg.name, header)
        with self.lock:
            ev = self.pch.get(key)
            mine = ev is None
            if mine:
                ev = self.pch[key] = {'done': threading.Event(), 'flags': []}
        if not mine:
            ev['done'].wait()
            return ev['flags']
        try:
            d = self.newdir()
            out = os.path.join(d, header + ('.gch' if cfg.cxx == 'g++' else '.pch'))
            cmd = [cfg.cxx] + cfg.flags() + self.includes(cfg) + [
                '-x', 'c++-header', os.path.join(HARNESS, header), '-o', out,
                '-MD', '-MF', os.path.join(d, 'deps')]
            rc, _, err = run(cmd)
            if rc == 0:
                self.check_deps(os.path.join(d, 'deps'))
                ev['flags'] = (['-I' + d] if cfg.cxx == 'g++'
                               else ['-include-pch', out])
        finally:
            ev['done'].set()
        return ev['flags']

    def compile(self, cfg, src, exe=None, pch='mpv_base.hpp', flags=(),
                timeout=COMPILE_TIMEOUT):
        """(rc, stderr).  rc None: timeout; negative: killed."""
        d = os.path.dirname(src)
        pf = self.get_pch(cfg, pch) if pch else []
        cmd = [cfg.cxx] + cfg.flags() + pf + self.includes(cfg) + list(flags)
        dep = []
        if not pf:
            dep = ['-MD', '-MF', os.path.join(d, 'deps')]
        cmd += dep + ([src, '-o', exe] if exe else ['-fsyntax-only', src])
        rc, out, err = run(cmd, timeout)
        if dep and rc == 0:
            self.check_deps(os.path.join(d, 'deps'))
        return rc, err.decode('utf-8', 'replace')

    # --------------------------------------------------------------- batches
    def source(self, cfg, cases):
        head = '#include "mpv_base.hpp"\n'
        hs = []
        for c in cases:
            for h in c.headers:
                if h not in hs:
                    hs.append(h)
        head += ''.join('#include %s\n' % h for h in hs)
        lines = [head]
        for k, c in enumerate(cases):
            d = c.decls(cfg, k)
            if d:
                lines.append(d + '\n')
            lines.append('static void case_%d() { %s }\n' % (k, c.code(cfg, k)))
        lines.append('int main() {\n')
        for k in range(len(cases)):
            lines.append('  std::printf("\\n@%d "); case_%d(); std::fflush(stdout);\n' % (k, k))
        lines.append('  std::printf("\\n@end ");\n  return 0;\n}\n')
        return ''.join(lines)

    def run_batch(self, cfg, cases, pch='mpv_base.hpp'):
        """('ok', payloads) | ('nocompile', err) | ('crash', info) | ('infra', why)"""
        d = self.newdir()
        try:
            src = os.path.join(d, 'batch.cpp')
            exe = os.path.join(d, 'batch')
            with open(src, 'w') as f:
                f.write(self.source(cfg, cases))
            rc, err = self.compile(cfg, src, exe, pch)
            if rc is None or rc < 0 or 'Killed' in err[-400:]:
                return 'infra', 'compiler: rc=%s %s' % (rc, err[-300:])
            if rc != 0:
                return 'nocompile', err
            rc, out, err2 = run([exe], 120)
            text = out.decode('latin-1')
            got = {}
            for part in text.split('\n@')[1:]:
                i, _, payload = part.partition(' ')
                got[i] = payload
            if rc is None:
                return 'infra', 'program timed out'
            if rc != 0 or 'end' not in got:
                return 'crash', (rc, [got.get(str(k)) for k in range(len(cases))])
            return 'ok', [got.get(str(k)) for k in range(len(cases))]
        finally:
            shutil.rmtree(d, ignore_errors=True)

    MAX_ISOLATED = 6
    DEADLINE = 660            # quick only: seconds after which no new case is started

    def enough(self):
        """No further cases are needed (failures) or can be afforded (time)."""
        if len(self.failures) >= 40 or self.isolated >= self.MAX_ISOLATED:
            return True
        t = time.time() - self.t0
        if self.quick() and (t > self.DEADLINE or t > 300 and self.failures):
            if not self.failures:
                self.extra['truncated_after_s'] = int(t)
            return True
        return False

    def solve(self, cfg, cases):
        """Evaluate cases, isolating those that do not compile."""
        if not cases:
            return
        if self.enough():
            return
        t = time.time()
        st, res = self.run_batch(cfg, cases)
        if os.environ.get('VERIF_TIMES'):
            print('batch %s %d cases %.1fs at %.0f' % (
                cfg, len(cases), time.time() - t, time.time() - self.t0))
        if st == 'infra':
            if len(cases) > 1:
                h = len(cases) // 2
                self.solve(cfg, cases[:h])
                self.solve(cfg, cases[h:])
                return
            with self.lock:
                self.infra.append('%s: %s: %s' % (cfg, cases[0].key()[:300], res))
            return
        if st == 'ok':
            self.account(cfg, cases)
            for c, payload in zip(cases, res):
                bad = ('no output' if payload is None else c.judge(cfg, payload))
                if bad:
                    with self.lock:
                        self.failures.append(Failure(c, cfg, 'wrong', bad))
            return
        if len(cases) == 1:
            self.account(cfg, cases)
            with self.lock:
                self.isolated += 1
                self.failures.append(Failure(
                    cases[0], cfg, st,
                    'does not compile: ' + first_error(res) if st == 'nocompile'
                    else 'program crashed: %s' % (res[0],)))
            return
        if st == 'nocompile':
            # try the cases the compiler points at first
            guilty = self.guess(cfg, cases, res)
            if guilty and len(guilty) <= 3 and len(guilty) < len(cases):
                for g in guilty:
                    self.solve(cfg, [g])
                self.solve(cfg, [c for c in cases if not any(c is g for g in guilty)])
                return
        h = len(cases) // 2
        self.solve(cfg, cases[:h])
        self.solve(cfg, cases[h:])

    def guess(self, cfg, cases, err):
        src = self.source(cfg, cases)
        owner = {}
        cur = None
        for n, line in enumerate(src.split('\n'), 1):
            m = re.match(r'static void case_(\d+)\(', line)
            if m:
                cur = int(m.group(1))
            owner[n] = cur
        seen = []
        for m in re.finditer(r'batch\.cpp:(\d+)', err):
            k = owner.get(int(m.group(1)))
            if k is not None and cases[k] not in seen:
                seen.append(cases[k])
        return seen

    def account(self, cfg, cases):
        with self.lock:
            self.cfg_counts[cfg.name] = self.cfg_counts.get(cfg.name, 0) + len(cases)
            for c in cases:
                self.evaluations += 1
                h = hashlib.sha1(c.key().encode()).digest()[:10]
                self.distinct.add(h)
                if c.nontrivial() and h not in self.nontrivial:
                    self.nontrivial.add(h)
                    if len(self.samples) < 4 or (
                            len(self.samples) < 12 and self.evaluations % 97 == 0):
                        self.samples.append(c.show()[:400])
                for l in c.labels():
                    self.labels[l] = self.labels.get(l, 0) + 1

    def evaluate(self, pairs, batch=250):
        """pairs: iterable of (cfg, case)."""
        by = {}
        for cfg, case in pairs:
            by.setdefault(cfg.name, []).append(case)
        jobs = []
        for name, cases in by.items():
            n = (len(cases) + batch - 1) // batch
            for i in range(n):          # spreads the expensive cases
                jobs.append((CFGS[name], cases[i::n]))
        # the expensive precompiled headers first, the batches needing them last
        cost = lambda n: CFGS[n].string_limit if CFGS[n].old else 0
        for n in sorted(by, key=cost, reverse=True):
            self.pool.submit(self.get_pch, CFGS[n])
        jobs.sort(key=lambda j: (cost(j[0].name), -len(j[1])))
        self.map(lambda j: self.solve(*j), jobs)

    def map(self, fn, items):
        futs = [self.pool.submit(fn, it) for it in items]
        out = []
        for f in futs:
            out.append(f.result())
        return out

    # ------------------------------------------------------------- shrinking
    def fails(self, case, cfg):
        """Detail text when the case fails on its own, else None."""
        try:
            if not case.applicable(cfg):
                return None
            if hasattr(case, 'evaluate_alone'):
                return case.evaluate_alone(self, cfg)
            st, res = self.run_batch(cfg, [case])
        except Infra:
            raise
        if st == 'infra':
            return None
        if st == 'nocompile':
            return 'does not compile: ' + first_error(res)
        if st == 'crash':
            return 'program crashed: %s' % (res[0],)
        if res[0] is None:
            return 'no output'
        return case.judge(cfg, res[0])

    def shrink(self, fail, budget=45):
        t_end = time.time() + budget
        case, cfg, detail = fail.case, fail.cfg, fail.detail
        tried = {case.key()}
        progress = True
        while progress and time.time() < t_end:
            progress = False
            pend = []
            for c in case.shrinks():
                k = c.key()
                if k in tried or c.size() >= case.size() and len(k) > len(case.key()):
                    continue
                tried.add(k)
                pend.append(c)
                if len(pend) >= 160:
                    break
            for i in range(0, len(pend), JOBS):
                if time.time() > t_end:
                    break
                chunk = pend[i:i + JOBS]
                res = self.map(lambda c: self.fails(c, cfg), chunk)
                hit = [(c, d) for c, d in zip(chunk, res) if d]
                if hit:
                    case, detail = min(hit, key=lambda cd: cd[0].size())
                    progress = True
                    break
        return Failure(case, cfg, fail.kind, detail)

    # -------------------------------------------------------------- reporting
    def finish(self):
        return self._finish()

    def close(self):
        self.pool.shutdown(wait=True)
        shutil.rmtree(self.scratch, ignore_errors=True)

    def _finish(self):
        known = load_known(self.prop)
        report = []
        violation = None
        cands = sorted(self.failures, key=lambda f: (f.case.size(), f.cfg.name))
        for f in cands[:12]:
            if is_known(known, f.case):
                report.append(f)
                continue
            again = [self.fails(f.case, f.cfg) for _ in range(3)]
            if not all(again):
                self.infra.append('not reproducible: %s %s' % (f.cfg, f.case.key()[:300]))
                continue
            violation = self.shrink(f)
            final = [self.fails(violation.case, violation.cfg) for _ in range(3)]
            if not all(final):
                violation = f
            break
        code = 0
        if violation:
            path = self.write_replay(violation)
            print('config %s (%s -std=c++%d %s)' % (
                violation.cfg.name, violation.cfg.cxx, violation.cfg.std,
                ' '.join(violation.cfg.defs)))
            print('case   %s' % violation.case.show()[:2000])
            print('detail %s' % violation.detail[:2000])
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            code = 1
        for f in {g.case.key(): g for g in report}.values():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, f.case.show()[:300]))
        self.write_evidence(violation)
        print('%s %s: %d evaluations, %d distinct non-trivial, %d failures, '
              '%d inconclusive, %.1fs' % (
                  self.prop, self.tier, self.evaluations, len(self.nontrivial),
                  len(self.failures), len(self.infra), time.time() - self.t0))
        if not code and self.infra:
            for i in self.infra[:5]:
                print('inconclusive: ' + i)
            if len(self.infra) > 3 or not self.evaluations:
                code = 2
        return code

    def write_replay(self, v):
        d = os.path.join(EVIDENCE, 'replay')
        os.makedirs(d, exist_ok=True)
        data = {'property': self.prop, 'config': v.cfg.name,
                'class': type(v.case).__name__, 'case': v.case.to_json(),
                'detail': v.detail, 'flags': v.cfg.flags(), 'compiler': v.cfg.cxx}
        h = hashlib.sha1(json.dumps(data['case'], sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(d, '%s-%s.json' % (self.prop, h))
        with open(path, 'w') as f:
            json.dump(data, f, indent=1)
        try:
            with open(path[:-5] + '.cpp', 'w') as f:
                f.write(self.source(v.cfg, [v.case]) if not hasattr(
                    v.case, 'evaluate_alone') else v.case.full_source(v.cfg))
        except Exception:
            pass
        return path

    def write_evidence(self, violation):
        os.makedirs(EVIDENCE, exist_ok=True)
        cov = {'evaluations': self.evaluations,
               'distinct_nontrivial': len(self.nontrivial),
               'distinct': len(self.distinct),
               'rule': self.rule, 'samples': self.samples[:12],
               'labels': dict(sorted(self.labels.items())),
               'configurations': dict(sorted(self.cfg_counts.items())),
               'discarded': self.discarded,
               'inconclusive': len(self.infra)}
        cov.update(self.extra)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed,
              'level': 'exploration', 'coverage': cov,
              'wall_s': round(time.time() - self.t0, 2),
              'assumptions': self.assumptions or [
                  'the system compilers and Boost.MPL behave as documented'],
              'violations': 1 if violation else 0}
        with open(os.path.join(EVIDENCE, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)


def first_error(err):
    for line in err.split('\n'):
        if 'error' in line:
            return line.strip()[:600]
    return err[:300]


# ------------------------------------------------------------ known findings
def load_known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('findings', [])
            if k['property'] == prop and k.get('status') == 'known']


def is_known(known, case):
    key = case.key()
    return any(json.dumps(k['case'], sort_keys=True) == key for k in known)
