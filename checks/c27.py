"""C27: external commands get exactly the intended arguments.

All names over an alphabet of separators, quotes and shell characters, in all places of the paths of the files, and all
combinations of option values are given to the real builders; the commands are started by the real executor, with recording
stand-ins for the programs. Commands with all kinds of output sizes and exit codes are run by the real executor."""
import itertools
import os
import pathlib
import subprocess
import sys
import time
import mc
import proj
from mc import Outcome

PID = 'C27'
LEVEL = 'model_checking'
RULE = ('all names of 1 or 2 (thorough: 3) characters of an alphabet of 29, as the stem of a file, as a part of the stem, as a '
        'directory or as the target directory, for all builders of commands (arguments), and all names of 1 (thorough: 2) '
        'characters run by the executor with recording programs; all combinations of the values of options; chains of '
        'builders; all output sizes around the sizes of buffers, exit codes and a timeout')
ASSUMPTIONS = ['a path that starts with a hyphen loses the hyphen (tested behaviour), so '
               'that it is not an option', 'how a program reads its arguments is its own']

ALPHABET = ['a', ' ', '-', '*', '`', ';', '$', '"', "'", '&', '|', '(', '<', '>', '{', '}', '[', '%', '~', '=', ',', ':', '#', '!', '\\', '\t', '\n',
            '\u00e9', '.']
BUILDERS = ['Tif2png', 'Tiff2png', 'Asy2pdf', 'Pdf2svg', 'ScaleSvg', 'PdfCrop', 'Pdflatex', 'Latexmk']
PLACES = ['stem', 'part', 'dir', 'target']
SIZES = [0, 1, 4095, 4096, 4097, 65535, 65536, 65537, 131072, 1000000]

STANDIN = r'''#!/bin/sh
prog="${0##*/}"
f="$DMREC/$$"
printf '%s\0' "$prog" "$@" > "$f.part"
out=
last=
job=
dir=
case "$prog" in
convert|pdf2svg) out="$2";;
*) for a in "$@"; do
     if [ "$last" = -o ]; then out="$a"; fi
     case "$a" in -jobname=*) job="${a#-jobname=}";; -output-directory=*) dir="${a#-output-directory=}";; esac
     last="$a"
   done
   if [ -n "$job" ]; then out="$dir/$job.pdf"; fi;;
esac
echo "$prog" > "$out"
mv "$f.part" "$f"
'''

# options: name -> number of values
OPTIONS = {'convert': {}, 'pdf2svg': {}, 'asy': {'-safe': 0, '-f': 1, '-o': 1}, 'rsvg-convert': {'-f': 1, '-o': 1, '-z': 1},
           'pdf-crop-margins': {'-o': 1, '-p': 1, '-p4': 4, '-a4': 4}, 'pdflatex': {}, 'latexmk': {}}
FIXED = {'Tif2png': ('convert', {}), 'Tiff2png': ('convert', {}), 'Asy2pdf': ('asy', {'-safe': (), '-f': ('pdf',)}), 'Pdf2svg': ('pdf2svg', {}),
         'ScaleSvg': ('rsvg-convert', {'-f': ('svg',), '-z': ('2.0',)}), 'PdfCrop': ('pdf-crop-margins', {}),
         'Pdflatex': ('pdflatex', {'-interaction=nonstopmode': (), '-halt-on-error': ()}),
         'Latexmk': ('latexmk', {'-pdf': (), '-norc': (), '-f': (), '-bibtex-': ()})}


def cases(tier):
    n = 2 if tier == 'quick' else 3
    for b, p in itertools.product(BUILDERS, PLACES):
        for c in ALPHABET if n == 3 else ['']:
            yield dict(kind='args', builder=b, place=p, first=c, n=n)
        yield dict(kind='exec', builder=b, place=p, n=n - 1)
    for b in ('ScaleSvg', 'PdfCrop', 'Pdf2svg', 'chain'):
        yield dict(kind='options', builder=b)
    for b in ('tif', 'pdf', 'asy', 'render'):
        yield dict(kind='chain', what=b)
    for out, err in itertools.product(SIZES, repeat=2):
        yield dict(kind='output', out=out, err=err)
    for rc in (0, 1, 2, 127, 255):
        yield dict(kind='code', rc=rc)
    yield dict(kind='timeout', out=0)
    yield dict(kind='timeout', out=1000000)


def setup():
    """Stand-ins for all programs, found first on the path"""
    d = os.path.join(mc.newdir('bin'))
    for p in OPTIONS:
        f = os.path.join(d, p)
        with open(f, 'w') as fh:
            fh.write(STANDIN)
        os.chmod(f, 0o755)
    os.environ['PATH'] = d + ':' + os.environ['PATH']


def builder_class(name):
    from disseminate.builders.builder import Builder
    import disseminate.builders.imagemagick, disseminate.builders.asy_builders, disseminate.builders.pdf2svg
    import disseminate.builders.scalesvg, disseminate.builders.pdfcrop, disseminate.builders.pdflatex, disseminate.builders.latexmk
    from disseminate.utils.classes import all_subclasses
    return [c for c in all_subclasses(Builder) if c.__name__ == name][0]


def parse(prog, args, fixed):
    """Options {name: values} and other arguments of a command"""
    opts, pos = {}, []
    args = list(args)
    i = 1
    while i < len(args):
        a = args[i]
        if a in OPTIONS[prog]:
            n = OPTIONS[prog][a]
            opts.setdefault(a, [])
            opts[a].append(tuple(args[i + 1:i + 1 + n]))
            i += 1 + n
        elif a in fixed:
            opts.setdefault(a, []).append(())
            i += 1
        elif prog in ('pdflatex', 'latexmk') and a.startswith(('-jobname=', '-output-directory=')):
            k, _, v = a.partition('=')
            opts.setdefault(k, []).append((v,))
            i += 1
        else:
            pos.append(a)
            i += 1
    return {k: v[0] if len(v) == 1 else v for k, v in opts.items()}, pos


def expected(name, infile, out, extra=None, pos=()):
    prog, fixed = FIXED[name]
    opts = dict(fixed)
    opts.update(extra or {})
    infile, out = os.path.normpath(str(infile)), os.path.normpath(str(out))
    if prog in ('convert', 'pdf2svg'):
        return prog, opts, [infile, out] + list(pos)
    if prog in ('pdflatex', 'latexmk'):
        opts['-jobname'] = (os.path.splitext(os.path.basename(out))[0],)
        opts['-output-directory'] = (os.path.dirname(out),)
        return prog, opts, [infile]
    opts['-o'] = (out,)
    return prog, opts, [infile]


def same(got, name, infile, out, extra=None, pos=()):
    prog, opts, p = expected(name, infile, out, extra, pos)
    if not got or any(not isinstance(a, str) for a in got) or os.path.basename(got[0]) != prog:
        return False
    g = parse(prog, got, FIXED[name][1])
    return g == (opts, p)


_envs = {}


def env_for(d, sub=''):
    from disseminate.builders.environment import Environment
    key = (d, sub)
    src = pathlib.Path(d) / 'src'
    if not (src / 'main.dm').exists():
        proj.write(src / 'main.dm', '---\ntargets: txt\n---\ntext')
    root = pathlib.Path(d) / sub if sub else pathlib.Path(d)
    root.mkdir(parents=True, exist_ok=True)
    return Environment(src_filepath=src / 'main.dm', target_root=root)


def paths(d, place, name, ext):
    """The paths of the source and the directory of the targets for a name, or None if it's not a name"""
    if name in ('.', '..') and place != 'part':
        return None
    sub = {'stem': name + ext, 'part': 'x' + name + 'y z' + ext, 'dir': name + '/file' + ext, 'target': 'file' + ext}[place]
    return sub, (name if place == 'target' else '')


def make(env, name, infile, out=None, params=()):
    kw = {} if out is None else {'outfilepath': out}
    params = [infile] + list(params)
    if name == 'ScaleSvg' and not any(p[0] == 'scale' for p in params[1:]):
        params.append(('scale', '2.0'))
    return builder_class(name)(env=env, parameters=params, target='html', **kw)


def names(alphabet, n, first=''):
    for k in range(1, n + 1):
        for t in itertools.product(alphabet, repeat=k):
            s = ''.join(t)
            if s.startswith(first):
                yield s


def read(rec):
    """The recorded commands, in the order of their ends"""
    res = []
    t = time.time()
    while any(f.endswith('.part') for f in os.listdir(rec)) and time.time() - t < 30:
        time.sleep(0.001)
    for f in sorted(os.listdir(rec), key=lambda f: (os.stat(os.path.join(rec, f)).st_mtime_ns, int(f))):
        with open(os.path.join(rec, f), 'rb') as fh:
            res.append([a.decode() for a in fh.read().split(b'\0')[:-1]])
        os.unlink(os.path.join(rec, f))
    return res


def wait(b, limit=60):
    t = time.time()
    while b.status in ('ready', 'building') and time.time() - t < limit:
        b.build()
        time.sleep(0.001)
    return b.status


def run(case):
    from disseminate.paths import SourcePath, TargetPath
    oc = Outcome()
    d = mc.newdir('cmd')
    rec = mc.newdir('rec')
    os.environ['DMREC'] = rec
    kind = case['kind']
    name = case.get('builder')
    if kind in ('args', 'exec'):
        cls = builder_class(name)
        env = env_for(d)
        for n in names(ALPHABET, case['n'], case.get('first', '')):
            p = paths(d, case['place'], n, cls.infilepath_ext)
            if p is None:
                continue
            sub, tgt = p
            env.target_root = TargetPath(target_root=os.path.join(d, 'out', tgt))
            infile = SourcePath(project_root=os.path.join(d, 'src'), subpath=sub)
            outs = [None, TargetPath(target_root=os.path.join(d, 'out', tgt), target='html',
                                     subpath=str(pathlib.Path(sub).with_name('o' + n + '.' + cls.outfilepath_ext.strip('.'))))]
            for out in outs:
                if kind == 'exec':
                    infile.parent.mkdir(parents=True, exist_ok=True)
                    infile.write_text(n + str(out is None))
                b = make(env, name, infile, out)
                desc = '%s of %r to %r' % (name, str(infile), str(b.outfilepath))
                oc.transitions += 1
                oc.state((name, str(infile)[len(d):], str(b.outfilepath)[len(d):]))
                if out is not None:
                    oc.expect(str(b.outfilepath) == str(out), 'out', '%s instead of %s' % (desc, out))
                if kind == 'args':
                    got = b.run_cmd_args()
                    oc.expect(same(got, name, infile, b.outfilepath), 'args:' + name, '%s runs %s' % (desc, got))
                    continue
                status = wait(b)
                cmds = read(rec)
                oc.traces += 1
                oc.expect(len(cmds) == 1 and same(cmds[0], name, infile, b.outfilepath), 'exec:' + name, '%s ran %s' % (desc, cmds))
                oc.expect(status == 'done', 'status:' + name, '%s is %s' % (desc, status))
    elif kind == 'options':
        options(oc, name, env_for(d), d, rec)
    elif kind == 'chain':
        chain(oc, case['what'], d, rec)
    else:
        executor(oc, case, d)
    mc.rmdir(d)
    mc.rmdir(rec)
    return oc


def intlike(v):
    try:
        return str(int(v))
    except (TypeError, ValueError):
        return None


def options(oc, name, env, d, rec):
    from disseminate.paths import SourcePath
    cls = builder_class(name if name != 'chain' else 'Pdf2svg')
    infile = SourcePath(project_root=os.path.join(d, 'src'), subpath='file' + cls.infilepath_ext)
    infile.write_text('x')
    bad = ['2 -o /x', 'abc', '', '1;2', '-o']
    scales = ['2.0', '2', 0.5, 3, '1e1', '-1.5'] + bad
    crops = [None, 0, 1, 100, (1, 2, 3, 4), (5, 6, 7, 8), (40, 3, 200, 1), (9, 9, 2, 2), (0, 0, 0, 0), ('1', '2', '3', '4'), '7', (1, 2, 3), (1, 2, 3, 'x')] + bad
    pages = [None, 1, '2', '03'] + bad

    def tup(v, what):
        if isinstance(v, int):
            return {'-p': (str(v),)} if what == 'crop' else None
        if isinstance(v, str) and intlike(v):
            return {'-p': (str(int(v)),)} if what == 'crop' else None
        if isinstance(v, (tuple, list)) and len(v) == 4 and all(intlike(i) for i in v):
            return {'-p4' if what == 'crop' else '-a4': tuple(intlike(i) for i in v)}
        return None
    combos = []
    if name == 'ScaleSvg':
        for s in scales:
            try:
                combos.append(([('scale', s)], {'-z': (str(float(s)),)}, ()))
            except ValueError:
                combos.append(([('scale', s)], None, ()))
    elif name == 'Pdf2svg':
        for key, p in itertools.product(('page', 'page_no'), pages):
            combos.append(([] if p is None else [(key, p)], {} if p is None or intlike(p) else None, (intlike(p),) if intlike(p) else ()))
    elif name == 'PdfCrop':
        for key, c, o in itertools.product(('crop', 'crop_percentage'), crops, [None, (1, 2, 3, 4), (30, 4, 3, 3), (0, 0, 0, 0), (1, 2), 'x']):
            params, opts = [], {}
            for k, v in (('crop', c), ('offset', o)):
                if v is not None:
                    params.append((key if k == 'crop' else k, v))
                    t = tup(v, k)
                    opts = None if opts is None or t is None else dict(opts, **t)
            combos.append((params, opts, ()))
    else:
        return chain_options(oc, env, infile, rec)
    for params, opts, pos in combos:
        oc.transitions += 1
        oc.state((name, str(params)))
        desc = '%s with %s' % (name, params)
        try:
            b = make(env, name, infile, params=params)
            got = b.run_cmd_args()
        except Exception as e:
            # (values in strings may be refused)
            if opts is not None and not any(isinstance(v, str) for _, v in params):
                oc.fail('options:error', '%s raises %r' % (desc, e))
            continue
        if opts is None:
            # values that aren't valid add nothing
            known = [a for a in got if str(a) in [str(v) for _, v in params]]
            oc.expect(not known, 'options:invalid', '%s runs %s' % (desc, got))
            opts, pos = {k: v for k, v in parse(FIXED[name][0], got, FIXED[name][1])[0].items() if k in ('-p', '-p4', '-a4', '-z')}, ()
        oc.expect(same(got, name, infile, b.outfilepath, opts, pos), 'options:' + name, '%s runs %s' % (desc, got))
        out = pathlib.Path(str(b.outfilepath))
        if out.exists():
            out.unlink()
        try:
            status = wait(b)
        except Exception as e:
            oc.fail('options:run', '%s cannot be run: %r' % (desc, e))
            continue
        cmds = read(rec)
        oc.traces += 1
        oc.expect([tuple(c) for c in cmds] == [tuple(got)] and status == 'done', 'options:exec', '%s ran %s, not %s' % (desc, cmds, got))


def stages(oc, desc, cmds, first, last):
    """Each command reads what the one before wrote; returns the options of the commands by program"""
    res = {}
    before = str(first) if first is not None else None
    for c in cmds:
        prog = os.path.basename(c[0])
        name = [n for n in BUILDERS if FIXED[n][0] == prog][0]
        opts, pos = parse(prog, c, FIXED[name][1])
        if prog in ('convert', 'pdf2svg'):
            out, rest = pos[1] if len(pos) > 1 else None, pos[2:]
        elif prog == 'pdflatex':
            out, rest = opts['-output-directory'][0] + '/' + opts['-jobname'][0] + '.pdf', pos[1:]
        else:
            out, rest = opts.pop('-o', (None,))[0], pos[1:]
        oc.expect(bool(pos) and (before is None or pos[0] == before), 'chain:input', '%s: %s does not read %s' % (desc, c, before))
        for k, v in FIXED[name][1].items():
            if k != '-z':
                oc.expect(opts.pop(k, None) == v, 'chain:fixed', '%s: %s without %s' % (desc, c, k))
        before = out
        res.setdefault(prog, []).append((opts, rest))
    with open(str(last)) as f:
        text = f.read().strip()
    oc.expect(bool(cmds) and text == os.path.basename(cmds[-1][0]), 'chain:output', '%s: %s has %r' % (desc, last, text))
    return res


def chain_options(oc, env, infile, rec):
    from disseminate.builders.pdf2svg import Pdf2SvgCropScale
    for crop, scale, page in itertools.product([None, 0, 20, (1, 2, 3, 4)], [None, '2.0', 0.5], [None, 1, '2']):
        params = [infile] + [(k, v) for k, v in (('crop', crop), ('scale', scale), ('page', page)) if v is not None]
        for p in pathlib.Path(str(env.target_root)).glob('**/*.svg'):
            p.unlink()
        for p in pathlib.Path(str(env.cache_path)).glob('**/file*'):
            p.unlink()
        desc = 'chain with %s' % (params[1:],)
        b = Pdf2SvgCropScale(env=env, parameters=params, target='html')
        oc.transitions += 1
        oc.state(desc)
        try:
            status = wait(b)
        except Exception as e:
            oc.fail('chain:run', '%s cannot be run: %r' % (desc, e))
            continue
        cmds = read(rec)
        oc.traces += 1
        oc.expect(status == 'done', 'chain:status', '%s is %s' % (desc, status))
        want = {'pdf2svg': [({}, [str(int(page))] if page is not None else [])]}
        if crop is not None:
            want['pdf-crop-margins'] = [({'-p': (str(crop),)} if isinstance(crop, int) else {'-p4': tuple(map(str, crop))}, [])]
        if scale is not None:
            want['rsvg-convert'] = [({'-z': (str(float(scale)),)}, [])]
        got = stages(oc, desc, cmds, infile, b.outfilepath)
        oc.expect(got == want, 'chain:commands', '%s ran %s' % (desc, cmds))


def chain(oc, what, d, rec):
    """Images of documents, with names and scales"""
    bodies = {'tif': '@img{pics/%s.tif}', 'pdf': '@img%s{pics/%s.pdf}', 'asy': '@asy%s{dot((%s, 0));}', 'render': '@eq[env=align*]{y = %s}'}
    for n in [c for c in ALPHABET if c not in '{}|%\t\n '] + ['a b', 'x -o y', 'a; touch z', '$(touch z)', '-a', 'a-', 'a.b']:
        stem = 'p' + n
        attrs = ['', 'scale=2.0', 'scale=0.5'] if what in ('pdf', 'asy') else ['']
        for a in attrs:
            dd = mc.newdir('doc')
            src = pathlib.Path(dd) / 'src'
            arg = stem if what in ('tif', 'pdf') else 'x'
            body = bodies[what] % (('[%s]' % a if a else '', arg) if what in ('pdf', 'asy') else (arg,))
            if what in ('tif', 'pdf'):
                proj.write(src / 'pics' / (stem + '.' + what), 'x')
            docname = ('d' + n if n not in ('.', '\\') else 'doc') + '.dm'
            proj.write(src / docname, '---\ntargets: html\n---\n' + body)
            desc = 'image %r of the document %r' % (body, docname)
            oc.transitions += 1
            oc.state(desc)
            env = proj.environment(src / docname, dd)
            env.build(complete=True)
            cmds = read(rec)
            oc.traces += 1
            media = [p for p in (pathlib.Path(dd) / 'html').glob('**/*') if p.suffix in ('.svg', '.png') and p.is_file()
                     and p.read_text() != 'x' and 'template' not in str(p)]
            media = [p for p in media if len(p.read_text()) < 40]
            if len(media) != 1:
                oc.fail('chain:image', '%s gives %s with %s' % (desc, media, cmds))
                mc.rmdir(dd)
                continue
            first = src / 'pics' / (stem + '.' + what) if what in ('tif', 'pdf') else None
            got = stages(oc, desc, cmds, first, media[0])
            progs = {'tif': ['convert'], 'pdf': ['pdf2svg'], 'asy': ['asy', 'pdf2svg'], 'render': ['pdflatex', 'pdf2svg']}[what]
            progs = progs + (['rsvg-convert'] if a else [])
            oc.expect([os.path.basename(c[0]) for c in cmds if os.path.basename(c[0]) != 'pdf-crop-margins'] == progs, 'chain:programs',
                      '%s ran %s' % (desc, cmds))
            if a:
                oc.expect([o for o, _ in got.get('rsvg-convert', [])] == [{'-z': (a[6:],)}], 'chain:scale', '%s ran %s' % (desc, cmds))
            left = [p for p in pathlib.Path(dd).glob('**/z')] + [p for p in pathlib.Path(os.getcwd()).glob('z')]
            oc.expect(not left, 'chain:shell', '%s made %s' % (desc, left))
            mc.rmdir(dd)


def executor(oc, case, d):
    from disseminate.builders.executor import run as execute
    prog = os.path.join(d, 'prog.sh')
    with open(prog, 'w') as f:
        f.write('#!/bin/sh\nhead -c "$1" /dev/zero | tr "\\0" o\nhead -c "$2" /dev/zero | tr "\\0" e >&2\n'
                'if [ "$4" = wait ]; then echo $$ > "%s"; exec sleep 300; fi\nexit "$3"\n' % os.path.join(d, 'pid'))
    os.chmod(prog, 0o755)
    oc.transitions += 1
    oc.traces += 1
    oc.state(str(sorted(case.items())))
    t = time.time()
    if case['kind'] == 'timeout':
        try:
            execute(timeout=3, args=(prog, str(case['out']), '0', '0', 'wait'))
            oc.fail('timeout', 'a command that does not end gives a result')
        except subprocess.TimeoutExpired:
            pass
        oc.expect(time.time() - t < 60, 'timeout', 'the timeout of 3 s took %.0f s' % (time.time() - t))
        pid = int(open(os.path.join(d, 'pid')).read())
        try:
            os.kill(pid, 0)
            alive = 'Z' not in open('/proc/%d/stat' % pid).read().rpartition(')')[2][:3]
        except (ProcessLookupError, IOError):
            alive = False
        if alive:
            os.kill(pid, 9)
        oc.expect(not alive, 'timeout:alive', 'a command still runs after its timeout')
        return
    out, err, rc = case.get('out', 5), case.get('err', 5), case.get('rc', 0)
    args = (prog, str(out), str(err), str(rc))
    try:
        r = execute(timeout=30, args=args)
    except subprocess.TimeoutExpired:
        oc.fail('output:timeout', 'a command that writes %d and %d bytes does not end' % (out, err))
        subprocess.call(['pkill', '-9', '-f', prog])
        return
    oc.expect((r.returncode, tuple(r.args), r.stdout, r.stderr) == (rc, args, 'o' * out, 'e' * err), 'output',
              'a command that writes %d and %d bytes and exits with %d gives %d, %d bytes, %d bytes' % (
                  out, err, rc, r.returncode, len(r.stdout), len(r.stderr)))
