"""A small project that is edited and built: sources from a state vector, histories of edits, clean builds.

Used by the checks of builds (C01, C02, C05, C28). The real loader, renderers, deciders and builders run; the external
commands are stand-ins whose output is a function of the contents of the files named on the command line.
"""
import os, re, shutil, hashlib, pathlib
import mc, proj

RUNS = []       # the commands started: tuples of args


def standin(args):
    """Runs a stand-in for an external command; returns the exit code."""
    args = list(args)
    RUNS.append(tuple(args))
    prog = os.path.basename(args[0])
    text = b''
    if prog == 'pdflatex':
        outdir = [a.split('=', 1)[1] for a in args if a.startswith('-output-directory=')][0]
        job = [a.split('=', 1)[1] for a in args if a.startswith('-jobname=')][0]
        out = os.path.join(outdir, job + '.pdf')
        tex = pathlib.Path(args[-1]).read_bytes()
        text = hashlib.sha1(tex).hexdigest().encode() + b'\n'
        for m in re.finditer(rb'\\includegraphics(?:\[[^\]]*\])?\{(?:\{(.*?)\}(\.\w+)|(.*?))\}', tex):
            p = (m.group(1) + m.group(2)) if m.group(1) else m.group(3)
            if not os.path.exists(p):
                return 1
            text += hashlib.sha1(open(p, 'rb').read()).hexdigest().encode() + b'\n'
        pathlib.Path(out).write_bytes(b'%PDF\n' + text)
        return 0
    # any converter: the output is named after -o, or it's the last argument that is a path; the other files are read
    files = [a for a in args[1:] if not a.startswith('-') and (os.sep in a or os.path.isfile(a))]
    out = args[args.index('-o') + 1] if '-o' in args else files[-1] if files else None
    for f in files:
        if os.path.isfile(f) and f != out:
            text += hashlib.sha1(open(f, 'rb').read()).hexdigest().encode() + b'\n'
    text += ' '.join(a for a in args if not os.path.exists(a) and a != out).encode()
    pathlib.Path(out).write_bytes(text)
    return 0


class InlineExecutor(object):
    """Commands run (as stand-ins) at once when they are submitted."""

    def submit(self, fn, args=None, timeout=None, **kw):
        from concurrent.futures import Future
        from disseminate.builders.executor import PopenResult
        f = Future()
        rc = standin(args)
        f.set_result(PopenResult(returncode=rc, args=args, stdout='', stderr=''))
        return f


def install():
    """Replace the commands by stand-ins and make all builders available."""
    from disseminate.builders import builder as b
    b.executor = InlineExecutor()
    b.find_executable = lambda exe: '/bin/' + exe
    fast_templates()


def fast_templates():
    """Parse each template once to find the templates it refers to (jinja2's own function, of the text only)."""
    import jinja2
    if hasattr(jinja2.Environment.parse, 'memo'):
        return
    real, memo = jinja2.Environment.parse, {}

    def parse(self, source, name=None, filename=None):
        key = (type(self), str(source), name, filename)
        if key not in memo:
            memo[key] = real(self, source, name, filename)
        return memo[key]
    parse.memo = memo
    jinja2.Environment.parse = parse


def wipe(d):
    for n in os.listdir(d):
        p = os.path.join(d, n)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p)
        else:
            os.unlink(p)


def epub(path, data):
    """The entries and contents of an epub file, without the generated id and the date."""
    import zipfile
    try:
        with zipfile.ZipFile(path) as z:
            entries = [(i.filename, z.read(i)) for i in z.infolist()]
    except Exception as e:
        return b'not an epub: ' + data
    res = []
    for name, text in entries:
        if name.endswith('.opf'):
            text = re.sub(rb'[0-9A-F]{8}-[0-9A-F-]{27}', b'UUID', text)
            text = re.sub(rb'\d{4}-\d\d-\d\dT[0-9:]{8}Z', b'DATE', text)
        res.append(name.encode() + b':\n' + text)
    return b'\n'.join(res)


def snapshot(out, skip=('.cache',), stat=False):
    """relative path -> contents (or (mtime_ns, inode, contents)) of the files under out."""
    res = {}
    for base, dirs, files in os.walk(out):
        if base == str(out):
            dirs[:] = [d for d in dirs if d not in skip]
        for f in files:
            p = os.path.join(base, f)
            with open(p, 'rb') as fh:
                data = fh.read()
            if f.endswith('.epub') and not stat:
                data = epub(p, data)
            if stat:
                st = os.stat(p)
                data = (st.st_mtime_ns, st.st_ino, data)
            res[os.path.relpath(p, str(out))] = data
    return res


class Project(object):
    """src/ and out/ directories of one worker, reused by all histories (so that absolute paths are the same)."""

    def __init__(self, sources, root='a.dm'):
        self.base = mc.newdir('prj')
        self.src = os.path.join(self.base, 'src')
        self.out = os.path.join(self.base, 'out')
        self.aside = os.path.join(self.base, 'aside')
        self.root = root
        self.sources = sources          # state -> {relative path: text}
        self.memo = {}
        self.env = None
        for d in (self.src, self.out):
            os.makedirs(d)

    def reset(self, state):
        self.env = None
        wipe(self.src)
        wipe(self.out)
        self.state = None
        self.put(state)

    def put(self, state):
        """Write the sources of the state: only the files that differ, with a later modification time."""
        old = self.sources(self.state) if self.state is not None else {}
        new = self.sources(state)
        for f in old:
            if f not in new:
                os.unlink(os.path.join(self.src, f))
        for f, text in new.items():
            if old.get(f) != text:
                proj.write(os.path.join(self.src, f), text)
        self.state = state

    def reset_built(self, state):
        """reset(), with the state already built by an earlier process (kept in a copy of the directories)."""
        saved = os.path.join(self.base, 'saved-' + mc.h(sorted(state.items())))
        self.close()
        if not os.path.isdir(saved):
            self.reset(state)
            st = self.build('N')
            self.close()
            if st != 'done':
                raise AssertionError('the first build gives %r' % (st,))
            os.makedirs(saved)
            shutil.copytree(self.src, os.path.join(saved, 'src'))
            shutil.copytree(self.out, os.path.join(saved, 'out'))
        else:
            shutil.rmtree(self.src)
            shutil.rmtree(self.out)
            shutil.copytree(os.path.join(saved, 'src'), self.src)
            shutil.copytree(os.path.join(saved, 'out'), self.out)
        self.state = state

    def new(self):
        """A new process: nothing is kept in memory."""
        self.close()
        self.count = getattr(self, 'count', 0) + 1
        if self.count % 5 == 0:
            import gc
            gc.collect()
        self.env = proj.environment(os.path.join(self.src, self.root), self.out)

    def close(self):
        env, self.env = self.env, None
        if env is not None and env.decider._db is not None:
            env.decider._db.close()

    def build_cli(self, limit=400):
        rb = self.env.create_root_builder()
        status, n = rb.status, 0
        while status in ('ready', 'building'):
            status = rb.build(complete=False)
            n += 1
            if n > limit:
                return 'stuck'
        return rb.status

    def build_same(self):
        return self.env.root_document.build()

    def build(self, mode):
        """mode 'S': as the server does in the same process; 'N': as the command line does in a new process."""
        if mode == 'N' or self.env is None:
            self.new()
            return self.build_cli()
        return self.build_same()

    def clean(self, state):
        """What a clean build of the state gives, in the same place (memoized)."""
        key = mc.h(sorted(self.sources(state).items()))
        if key not in self.memo:
            assert self.state == state
            env, self.env = self.env, None
            os.rename(self.out, self.aside)
            os.makedirs(self.out)
            try:
                try:
                    self.new()
                    st = self.build_cli()
                except Exception as e:
                    st = '%s: %s' % (type(e).__name__, str(e)[:200])
                self.close()
                self.memo[key] = (st, snapshot(self.out))
            finally:
                shutil.rmtree(self.out)
                os.rename(self.aside, self.out)
                self.env = env
        return self.memo[key]
