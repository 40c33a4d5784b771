"""Shared infrastructure: building the crate, compiling generated programs,
mapping diagnostics to programs, reporting."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.path.join(VERIF, '..', 'repo'))
TOOLCHAIN = '1.87.0'
NCPU = 8


class Broken(Exception):
    """The check could not do its work (never a verdict)."""


def env(**kw):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith('CARGO_') and k not in ('CARGO_HOME',) or k in ('RUSTFLAGS', 'RUSTC', 'RUSTC_WRAPPER', 'RUSTDOCFLAGS', 'MIRIFLAGS'):
            del e[k]
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', LC_ALL='C.UTF-8')
    e.update(kw)
    return e


def run(cmd, timeout=600, **kw):
    """Runs a command; returns (rc, stdout, stderr). A timeout is Broken."""
    e = kw.pop('env', None) or env()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, **kw)
    except subprocess.TimeoutExpired:
        raise Broken('timed out: ' + ' '.join(map(str, cmd))[:300])
    return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')


def pmap(f, xs):
    xs = list(xs)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        return list(ex.map(f, xs))


class Diag:
    __slots__ = ('level', 'code', 'msg', 'spans', 'text')

    def __init__(self, j):
        self.level = j['level']
        self.code = (j.get('code') or {}).get('code')
        self.msg = j['message']
        self.text = j.get('rendered') or j['message']
        self.spans = []
        for s in j['spans']:
            # innermost source location outside of macro expansions
            t = s
            while t.get('expansion') and t['expansion'].get('span'):
                t = t['expansion']['span']
            self.spans.append((s['is_primary'], s['file_name'], s['line_start'], s['column_start'], s['line_end'], s['column_end'], t['line_start'], t['file_name']))

    def primary(self):
        return [s for s in self.spans if s[0]]

    def lines(self):
        r = []
        for s in self.primary() or self.spans:
            r.append(s[6])
        return r


NODEBUG = ['--config', 'profile.dev.package.funcmap.debug-assertions=false', '--config', 'profile.dev.package.funcmap.overflow-checks=false']


class Compiled:
    def __init__(self, rc, diags, err):
        self.rc, self.diags, self.err = rc, diags, err

    @property
    def ok(self):
        return self.rc == 0

    def errors(self):
        return [d for d in self.diags if d.level == 'error' and d.spans]


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        for a in sys.argv[2:]:
            if a in ('quick', 'thorough'):
                self.tier = a
        self.thorough = self.tier == 'thorough'
        self.t0 = time.time()
        self.work = os.path.join(VERIF, 'build', prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.target = os.path.join(VERIF, 'target')
        self.violations = []
        self.known = {}
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.rlibs = {}
        self.listed = [k for k in json.load(open(os.path.join(VERIF, 'known_findings.json')))['findings'] if k['property'] == prop and k['status'] == 'open']

    # --- building -------------------------------------------------------------------

    def log(self, *a):
        print(f'[{self.prop} {time.time() - self.t0:6.1f}s]', *a, flush=True)

    def cargo(self, args, manifest, target, timeout=600, **kw):
        cmd = ['cargo'] + args + ['--offline', '--manifest-path', manifest, '--target-dir', target, '--message-format=json']
        return run(cmd, timeout=timeout, **kw)

    def build(self, bins=(), features=()):
        """Rebuilds the crate from the current tree and the harness against it."""
        man = os.path.join(VERIF, 'harness', 'Cargo.toml')
        run(['cargo', 'clean', '--offline', '--manifest-path', man, '--target-dir', self.target, '-p', 'funcmap', '-p', 'funcmap_derive', '-p', 'fmrt'])
        rc, out, err = self.cargo(['build', '--lib'], man, self.target)
        self._artifacts(out)
        if 'funcmap' not in self.rlibs:
            raise Broken('the crate does not build:\n' + self._messages(out) + err[-2000:])
        if rc != 0:
            raise Broken('the harness library does not build:\n' + self._messages(out))
        exes = {}
        for b in bins:
            rc, out, err = self.cargo(['build', '--bin', b] + [f'--features={f}' for f in features], man, self.target, timeout=840)
            # the library was rebuilt with the features
            self._artifacts(out)
            if rc != 0:
                return None, self._messages(out)
            exes[b] = os.path.join(self.target, 'debug', b)
        self.log('built the crate and the harness')
        return exes, ''

    def build_nodebug(self, name, features=()):
        """Rebuilds a binary of the harness against the crate without debug assertions."""
        man = os.path.join(VERIF, 'harness', 'Cargo.toml')
        rc, out, err = self.cargo(['build', '--bin', name] + [f'--features={f}' for f in features] + NODEBUG, man, self.target, timeout=600)
        if rc != 0:
            raise Broken('does not build without debug assertions:\n' + self._messages(out) + err[-2000:])
        return self.keep(os.path.join(self.target, 'debug', name), name + '_nodebug')

    def keep(self, exe, name):
        """Copies a binary that a later build overwrites."""
        return shutil.copy(exe, os.path.join(self.work, name))

    def _artifacts(self, out):
        for l in out.splitlines():
            if not l.startswith('{'):
                continue
            j = json.loads(l)
            if j.get('reason') == 'compiler-artifact':
                for f in j['filenames']:
                    if f.endswith('.rlib') or f.endswith('.so'):
                        self.rlibs[j['target']['name']] = f

    @staticmethod
    def _messages(out):
        r = []
        for l in out.splitlines():
            if l.startswith('{'):
                j = json.loads(l)
                if j.get('reason') == 'compiler-message' and j['message']['level'] == 'error':
                    r.append(j['message'].get('rendered') or j['message']['message'])
        return '\n'.join(r)[:6000]

    # --- compiling programs ---------------------------------------------------------

    def rustc(self, src, out=None, edition='2021', extra=(), fmrt=True, timeout=600, e=None, externs=None, stdin=False):
        """Compiles a file; metadata only unless `out` names an executable."""
        cmd = ['rustc', '--edition', edition, '--error-format=json', '--cap-lints=forbid', '-L', 'dependency=' + os.path.join(self.target, 'debug', 'deps')]
        cmd += ['--extern', 'funcmap=' + self.rlibs['funcmap']]
        if fmrt:
            cmd += ['--extern', 'fmrt=' + self.rlibs['fmrt']]
        if out:
            cmd += ['--crate-type', 'bin', '-o', out, '-C', 'debuginfo=0', '-C', 'opt-level=0']
        else:
            cmd += ['--crate-type', 'lib', '--emit', 'metadata=' + src[:-3] + '.rmeta']
        cmd += list(extra) + [src]
        rc, o, err = run(cmd, timeout=timeout, env=e, cwd=self.work)
        diags = []
        other = []
        for l in err.splitlines():
            if l.startswith('{'):
                try:
                    j = json.loads(l)
                    if j.get('$message_type', 'diagnostic') == 'diagnostic':
                        diags.append(Diag(j))
                        continue
                except ValueError:
                    pass
            other.append(l)
        other = '\n'.join(other)
        if rc not in (0, 1) or 'internal compiler error' in other:
            raise Broken(f'rustc ended with {rc}: {other[-1500:]}')
        return Compiled(rc, diags, other)

    def write(self, name, text):
        p = os.path.join(self.work, name)
        with open(p, 'w') as f:
            f.write(text)
        return p

    # --- reporting ------------------------------------------------------------------

    def violation(self, what, artefact):
        """Records a violation with a replayable artefact (text)."""
        for k in self.listed:
            pass
        self.violations.append((what, artefact))

    def finding(self, fid, what):
        """A genuine defect listed in known_findings.json; anything not listed is a violation."""
        if any(k['id'] == fid for k in self.listed):
            self.known.setdefault(fid, what)
            return True
        return False

    def add(self, states=0, transitions=0, traces=0, samples=()):
        self.cov['states'] += states
        self.cov['transitions'] += transitions
        self.cov['traces_validated_against_impl'] += traces
        for s in samples:
            if len(self.cov['samples']) < 12:
                self.cov['samples'].append(s)

    def finish(self, exhaustive=True, **extra):
        self.cov['exhaustive'] = exhaustive
        self.cov.update(extra)
        # replay files
        rdir = os.path.join(VERIF, 'replay')
        os.makedirs(rdir, exist_ok=True)
        for f in os.listdir(rdir):
            if f.startswith(self.prop + '-'):
                os.remove(os.path.join(rdir, f))
        for k in self.listed:
            if k['id'] in self.known:
                print(f"KNOWN-FINDING: property={self.prop} {k['id']}: {k['what']}")
        for i, (what, art) in enumerate(self.violations[:int(os.environ.get('VERIF_SHOW', '20'))]):
            p = os.path.join(rdir, f'{self.prop}-{i}.txt')
            with open(p, 'w') as f:
                f.write(what + '\n\n' + art + '\n')
            print(f'# {what[:600]}')
            print(f'VIOLATION property={self.prop} replay={p}')
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='model_checking', coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        c = self.cov
        self.log(f"states={c['states']} transitions={c['transitions']} executions={c['traces_validated_against_impl']} violations={len(self.violations)}")
        shutil.rmtree(self.work, ignore_errors=True)
        return 1 if self.violations else 0


class Batch:
    """Programs compiled together, one module each; diagnostics are mapped back by line."""

    def __init__(self, check, name, header='', edition='2021', footer=''):
        self.check, self.name, self.header, self.edition, self.footer = check, name, header, edition, footer
        self.progs = []   # (key, text)

    def add(self, key, text):
        self.progs.append((key, text))

    def text(self, progs):
        lines = self.header.splitlines()
        ranges = []
        for key, text in progs:
            a = len(lines) + 1
            lines += text.splitlines()
            ranges.append((a, len(lines), key))
        lines += self.footer.splitlines()
        return '\n'.join(lines) + '\n', ranges

    def compile(self, progs=None, suffix='', **kw):
        """Returns (Compiled, {key: [Diag]}, unmapped)"""
        progs = self.progs if progs is None else progs
        text, ranges = self.text(progs)
        p = self.check.write(f'{self.name}{suffix}.rs', text)
        c = self.check.rustc(p, edition=self.edition, **kw)
        by, un = {}, []
        for d in c.errors():
            keys = set()
            for l in d.lines():
                for a, b, k in ranges:
                    if a <= l <= b:
                        keys.add(k)
            if keys:
                for k in keys:
                    by.setdefault(k, []).append(d)
            else:
                un.append(d)
        return c, by, un


def accept_all(check, batches, **kw):
    """Every program of every batch must compile. Returns {key: [Diag]} of the rejected ones."""
    def one(b):
        bad = {}
        progs = list(b.progs)
        n = 0
        while True:
            c, by, un = b.compile(progs, **kw)
            if c.ok:
                return bad
            if not by:
                if len(progs) == 1:
                    bad[progs[0][0]] = un or [None]
                    return bad
                # cannot attribute: bisect by compiling alone
                for p in progs:
                    c, by1, un1 = b.compile([p], suffix='_s', **kw)
                    if not c.ok:
                        bad[p[0]] = c.errors() or [None]
                return bad
            # errors of one compiler phase can hide others; go on with the rest
            n += 1
            if n > 3 and len(bad) > 10:
                bad.update(by)
                return bad
            bad.update(by)
            progs = [p for p in progs if p[0] not in by]
            if not progs:
                return bad
    res = {}
    for r in pmap(one, batches):
        res.update(r)
    return res


def chunks(xs, n):
    """Splits into about n parts of near-equal size, interleaved."""
    xs = list(xs)
    n = max(1, min(n, len(xs)))
    return [xs[i::n] for i in range(n)]


def show(diags, n=2):
    return '\n'.join((d.text if d else 'rejected without a diagnostic') for d in diags[:n])
