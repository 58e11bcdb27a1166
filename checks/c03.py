"""C03: up-to-date decisions are exact over every history.

Every history of edits, damages, builds, restarts and queries up to a depth is run on the real decider (with its real
persistent store) and on the real builder (with the external command replaced by a scripted one); every answer is
compared with a dictionary of the builds that succeeded."""
import itertools
import os
import pathlib
import mc
from mc import Outcome

PID = 'C03'
LEVEL = 'model_checking'
CASE_TIMEOUT = 300
RULE = ('all histories of up to 5 operations (6 thorough) out of 11 on a decider with two inputs, an argument and two outputs '
        '(text and pdf files), all histories of up to 4 (6) operations out of 13 on a builder whose command succeeds, fails '
        'before or after writing, or writes nothing; one byte changed near each limit of the pieces of files of up to 256 KB (thorough: 16 MB); a state is (contents, outputs, builds recorded, answers); the oracle is '
        'the map of (inputs, argument) to the output of the last successful build')
ASSUMPTIONS = ['inputs do not change while a command runs',
               'metadata lines of pdf files (dates and ids) do not count as content']

VARIANTS = {
    'txt': {'A': 'one', 'B': 'two', 'D': 'damaged'},
    # B of pdf has the lines of A joined; M has the content of A and other metadata
    # (names of metadata within a line don't make it a line of metadata)
    'pdf': {'A': 'a /ID 1\nb /ModDate\n/CreationDate 1', 'B': 'a /ID 1b /ModDate\n/CreationDate 1',
            'M': 'a /ID 1\nb /ModDate\n/CreationDate 2', 'D': 'a /ID 2'},
}

DOPS = ['f1A', 'f1B', 'f2A', 'f2B', 'rm1', 'arg', 'dmg', 'rmo', 'build', 'build2', 'restart']
BOPS = ['f1A', 'f1B', 'swap', 'rm1', 'arg', 'dmg', 'rmo', 'ok', 'fail', 'failpart', 'nofile', 'new', 'restart']


TOKENS = ['a', '\n', ' /ID b\n', '/ModDate c\n', '/ID d\n']


def cases(tier):
    n = 6 if tier == 'thorough' else 5
    for kind in ('txt', 'pdf'):
        for size in (4095, 4096, 8193, 65536, 65537, 131088) + ((1 << 18) + 16, ) * (tier == 'quick') + \
                ((1 << 22) + 16, (1 << 24) + 16) * (tier == 'thorough'):
            yield ['large', kind, [], size]
    for kind in ('txt', 'pdf'):
        for pad in range(0, 16 if tier == 'quick' else 40):
            yield ['contents', kind, [pad], 4 if tier == 'quick' else 5]
    for kind in ('txt', 'pdf'):
        for k in (1, 2, 3):
            yield ['decider', kind, [], k]
        ops = DOPS + (['f1M'] if kind == 'pdf' else [])
        for p in itertools.product(ops, repeat=2):
            if kind == 'txt':
                yield ['decider', kind, list(p), n - 3]
            yield ['decider', kind, list(p), n - 2 - (kind == 'pdf')]
    for kind in ('txt', 'pdf'):
        for k in (1, 2, 3):
            yield ['builder', kind, [], k]
        for p in itertools.product(BOPS, repeat=2):
            k = n - 2 - (kind == 'pdf' or tier == 'quick')
            if kind == 'txt':
                yield ['builder', kind, list(p), k - 1]
            yield ['builder', kind, list(p), k]


class Env(object):
    media_path = None
    context = None

    def __init__(self, d):
        from disseminate.builders.deciders import Md5Decider
        from disseminate.builders.scanners import Scanner
        from disseminate.paths import SourcePath, TargetPath
        self.d = d
        (d / 'cache').mkdir(parents=True, exist_ok=True)
        self.cache_path = SourcePath(project_root=d, subpath='cache')
        self.project_root = SourcePath(project_root=d)
        self.target_root = TargetPath(target_root=d)
        self.scanner = Scanner
        self.decider = Md5Decider(env=self)

    def restart(self):
        from disseminate.builders.deciders import Md5Decider
        if self.decider._db is not None:
            self.decider._db.close()
            self.decider._db = None
        self.decider = Md5Decider(env=self)


def clear(d):
    for p in d.iterdir():
        if p.is_file():
            p.unlink()


class World(object):
    """The files, the real objects and the reference."""

    nonce = 0

    def __init__(self, kind, d, env):
        from disseminate.paths import SourcePath, TargetPath
        self.kind, self.d, self.env = kind, d, env
        self.v = VARIANTS[kind]
        clear(d)
        # every history has its own argument, so that it has its own entries in the store
        World.nonce += 1
        self.nonce = 'history %d' % World.nonce
        self.paths = [SourcePath(project_root=d, subpath='f%d.%s' % (i, kind)) for i in (1, 2)]
        self.outs = [TargetPath(target_root=d, subpath='o%d.%s' % (i, kind)) for i in (1, 2)]
        self.arg = 0
        self.store = {}
        self.put(self.paths[0], 'A')
        self.put(self.paths[1], 'B')

    def put(self, path, name):
        with open(str(path), 'w') as f:
            f.write(self.v[name])

    def content(self, path):
        """The content without metadata, None if there is no file."""
        try:
            with open(str(path)) as f:
                text = f.read()
        except FileNotFoundError:
            return None
        return '\n'.join(l for l in text.split('\n') if not l.startswith('/CreationDate')) if self.kind == 'pdf' else text

    def key(self, which):
        return (self.content(self.paths[0]), self.content(self.paths[1]), self.arg, which)

    def product(self, which):
        """What the command writes, a function of the inputs: different inputs can give the same output."""
        a, b = self.content(self.paths[0]), self.content(self.paths[1])
        return '%s-%s-%s' % (a[:3] if which else a, b, which)

    def current(self, which):
        """True if the output is up to date."""
        k = self.key(which)
        return k[0] is not None and k[1] is not None and self.content(self.outs[which]) is not None \
            and self.store.get(k) == self.content(self.outs[which])

    def edit(self, op):
        if op in ('f1A', 'f1B', 'f2A', 'f2B', 'f1M'):
            self.put(self.paths[int(op[1]) - 1], op[2])
        elif op == 'rm1':
            if os.path.exists(str(self.paths[0])):
                os.unlink(str(self.paths[0]))
        elif op == 'swap':
            if not os.path.exists(str(self.paths[0])):
                return False
            os.rename(str(self.paths[0]), str(self.d / 'tmp'))
            os.rename(str(self.paths[1]), str(self.paths[0]))
            os.rename(str(self.d / 'tmp'), str(self.paths[1]))
        elif op == 'arg':
            self.arg = 1 - self.arg
        elif op == 'dmg':
            if not os.path.exists(str(self.outs[0])):
                return False
            self.put(self.outs[0], 'D')
        elif op == 'rmo':
            if not os.path.exists(str(self.outs[0])):
                return False
            os.unlink(str(self.outs[0]))
        else:
            return None
        return True

    def write(self, which, part=False):
        text = self.product(which)
        with open(str(self.outs[which]), 'w') as f:
            f.write(text[:len(text) // 2] if part else text)

    def snapshot(self):
        return [self.kind] + [self.content(p) for p in self.paths + self.outs] + [self.arg, sorted(map(str, self.store.items()))]


def run_decider(oc, w, hist):
    decisions = {}
    args = ('cmd one', 'cmd two')

    def inputs(which):
        x = list(w.paths) + [args[which], ('option', w.arg), w.nonce]
        return x if which else x[::-1]

    def decision(which):
        if which not in decisions:
            decisions[which] = w.env.decider.decision
        return decisions[which]

    def query(when):
        for rep in range(2):
            for which in (0, 1):
                got = decision(which).build_needed(inputs=inputs(which), output=w.outs[which])
                oc.transitions += 1
                if not oc.expect(bool(got) == (not w.current(which)), 'decision-needed' if w.current(which) else 'decision-stale',
                                 '%s history %r: output %d %s: build_needed is %r, contents %r' % (w.kind, hist, which, when, got, w.snapshot())):
                    return False
        return True
    for k, op in enumerate(hist):
        done = w.edit(op)
        if done is False:
            return None
        if op in ('build', 'build2'):
            which = int(op == 'build2')
            if None in w.key(which):
                return None
            w.write(which)
            got = decision(which).build_needed(inputs=inputs(which), output=w.outs[which], reset=True)
            oc.expect(got is False, 'reset', '%r: %r' % (hist, got))
            w.store[w.key(which)] = w.content(w.outs[which])
        elif op == 'restart':
            w.env.restart()
            decisions.clear()
        oc.transitions += 1
        # (the longest histories end with the queries, the shorter ones have them at every step)
        if (k == len(hist) - 1 or len(hist) < 5) and not query('after step %d' % (k + 1)):
            return True
    oc.state(w.snapshot())
    return True


def run_builder(oc, w, hist):
    from concurrent.futures import Future
    from disseminate.builders import builder as bmod
    from disseminate.builders.executor import PopenResult
    from disseminate.builders.exceptions import BuildError

    class Cmd(bmod.Builder):
        action = 'tool -o {builder.outfilepath} {builder.infilepaths}'
        available = False
        priority = 1
        required_execs = ()
        active_requirements = ('priority',)
        outfilepath_ext = '.' + w.kind

    ran = []

    class Exec(object):
        def submit(self, fn, args=None, **kw):
            ran.append(mode)
            if mode == 'failpart':
                w.write(0, part=True)
            if mode == 'ok':
                w.write(0)
            f = Future()
            f.set_result(PopenResult(returncode=1 if mode.startswith('fail') else 0, args=args, stdout='', stderr=''))
            return f

    def new():
        return Cmd(env=w.env, parameters=list(w.paths) + [('option', w.arg), w.nonce], outfilepath=w.outs[0])
    old, bmod.executor = bmod.executor, Exec()
    builder = None
    try:
        for k, op in enumerate(hist):
            done = w.edit(op)
            if done is False:
                return None
            if op == 'arg':
                builder = None
            elif op == 'new':
                if builder is None:
                    return None
                builder = None
            elif op == 'restart':
                builder = None
                w.env.restart()
            elif op in ('ok', 'fail', 'failpart', 'nofile'):
                if builder is None:
                    builder = new()
                mode = op
                before = w.current(0)
                gone = None in w.key(0)
                if gone and builder._missing_parameters is False:
                    builder = new()
                del ran[:]
                try:
                    status = builder.build(complete=True)
                except BuildError:
                    status = 'error'
                what = '%s history %r step %d: status %r, ran %r, %r' % (w.kind, hist, k + 1, status, ran, w.snapshot())
                if gone:
                    oc.expect(status.startswith('missing') and not ran, 'builder-missing', what)
                elif before:
                    oc.expect(status == 'done' and not ran, 'builder-needless', what)
                elif op == 'ok':
                    ok = oc.expect(status == 'done' and len(ran) == 1 and w.content(w.outs[0]) == w.product(0), 'builder-stale', what)
                    if not ok:
                        return True
                    w.store[w.key(0)] = w.content(w.outs[0])
                elif op in ('fail', 'failpart'):
                    # (a failed command that leaves the very output of the last successful build is harmless)
                    oc.expect(len(ran) == 1 and (status == 'error' or (status == 'done' and w.current(0))), 'builder-error', what)
                    builder = None
                else:
                    # the command succeeds without writing the file: an output that was there counts as its output
                    if w.content(w.outs[0]) is None:
                        oc.expect(status == 'missing (outfilepath)' and len(ran) == 1, 'builder-nofile', what)
                    else:
                        oc.expect(len(ran) == 1 and status == 'done', 'builder-nofile', what)
                        w.store[w.key(0)] = w.content(w.outs[0])
                    builder = None
            oc.transitions += 1
            if k < len(hist) - 1 and len(hist) > 4:
                continue
            b = builder if builder is not None else new()
            for rep in range(2):
                got = b.build_needed()
                if not oc.expect(bool(got) == (not w.current(0)), 'builder-needed' if w.current(0) else 'builder-uptodate',
                                 '%s history %r after step %d: build_needed is %r, %r' % (w.kind, hist, k + 1, got, w.snapshot())):
                    return True
            if w.current(0):
                oc.expect(b.status == 'done', 'builder-status', '%r: %r' % (hist, b.status))
    finally:
        bmod.executor = old
    oc.state(w.snapshot())
    return True


_world = {}


def run_contents(oc, kind, pad, length):
    """All short contents after a filler that ends near the limits of the pieces in which files are read: two files have
    the same hash only if they have the same content."""
    from disseminate.builders.deciders.utils_hash import hash_items
    d = pathlib.Path(mc.newdir('c03h'))
    p = d / ('f.' + kind)
    seen = {}
    filler = 'x\n' * (2048 - 20) + 'y' * (41 - pad)
    for n in range(length + 1):
        for tokens in itertools.product(TOKENS, repeat=n):
            text = filler + ''.join(tokens)
            with open(str(p), 'w') as f:
                f.write(text)
            got = hash_items(p)
            lines = text.split('\n')
            content = '\n'.join(l for l in lines if not l.startswith(('/ID', '/ModDate'))) if kind == 'pdf' else text
            content = content.rstrip('\n') if kind == 'pdf' else content
            other = seen.setdefault(got, content)
            oc.expect(other == content, 'contents', '%s: same hash for the contents %r and %r' % (kind, other[-60:], content[-60:]))
            oc.traces += 1
            oc.transitions += 1
    oc.state(['contents', kind, pad, len(seen)])
    oc.nontrivial += 1
    mc.rmdir(d)
    return oc


def run_large(oc, kind, size):
    """One byte is changed at every place near a limit of the pieces in which a large file may be read, in an input or in the
    output: the output isn't up to date, and it is again when the byte is restored."""
    from disseminate.paths import SourcePath, TargetPath
    d = pathlib.Path(mc.newdir('c03l'))
    env = Env(d)
    ins = [SourcePath(project_root=d, subpath='f%d.%s' % (i, kind)) for i in (1, 2)]
    out = TargetPath(target_root=d, subpath='o.' + kind)
    data = (b'line of text 16\n' * (size // 16 + 1))[:size]
    for p in ins + [out]:
        p.write_bytes(data)
    inputs = ins + ['large']
    env.decider.decision.build_needed(inputs, out, reset=True)
    places = set(range(0, size, 4096)) | {4095, 4096, size - 1}
    places = sorted({q for p in places for q in (p - 1, p, p + 1) if 0 <= q < size and data[q:q + 1] != b'\n'}) if size <= 8193 else \
        sorted({q for k in range(25) for q in (2 ** k - 2, 2 ** k, size - 2 ** k) if 0 <= q < size and data[q:q + 1] != b'\n'})
    for p in (ins[1], out):
        for place in places:
            with open(str(p), 'r+b') as f:
                f.seek(place)
                f.write(b'#')
            needed = env.decider.decision.build_needed(inputs, out)
            oc.expect(needed, 'large', '%s of %d bytes, byte %d changed: up to date' % (p.name, size, place))
            with open(str(p), 'r+b') as f:
                f.seek(place)
                f.write(data[place:place + 1])
            oc.transitions += 1
        oc.expect(not env.decider.decision.build_needed(inputs, out), 'large', '%s of %d bytes restored: not up to date' % (p.name, size))
    oc.traces += 1
    oc.nontrivial += 1
    oc.state(['large', kind, size])
    env.decider._db.close()
    mc.rmdir(d)
    return oc


def run(case):
    oc = Outcome()
    what, kind, prefix, rest = case
    if what == 'large':
        return run_large(oc, kind, rest)
    if what == 'contents':
        return run_contents(oc, kind, prefix[0], rest)
    if 'env' not in _world:
        d = pathlib.Path(mc.newdir('c03'))
        _world['env'] = (d, Env(d))
    d, env = _world['env']
    ops = (DOPS + (['f1M'] if kind == 'pdf' else [])) if what == 'decider' else BOPS
    for tail in itertools.product(ops, repeat=rest):
        hist = prefix + list(tail)
        w = World(kind, d, env)
        done = run_decider(oc, w, hist) if what == 'decider' else run_builder(oc, w, hist)
        if done is None:
            continue
        oc.traces += 1
        if w.store:
            oc.nontrivial += 1
        if len(oc.violations) > 5:
            break
    return oc
