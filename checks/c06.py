"""C06: steps running at the same time never use a file being written.

Projects in which several tags need the same intermediate files are built with stand-ins for the external commands, under
every schedule of a bounded number of choices. While a command runs, its output is torn; every read or write of a file that
a running command uses is seen (commands, copies, rendered files)."""
import builtins
import os
import pathlib
import mc
import proj
import sched
from mc import Outcome

PID = 'C06'
LEVEL = 'model_checking'
CASE_TIMEOUT = 800
RULE = ('all schedules (which running command, if any, finishes whenever the driver looks at one; all choices at the first 8 '
        'points, 11 thorough) of projects in which up to 3 tags in up to 3 documents need the same intermediate files (equations, '
        'asymptote code, pdf and tif images with and without options, 2 targets); a state is the sequence of events; the '
        'monitor is: nobody uses the output of a running command, nobody writes an input of one')
ASSUMPTIONS = ['a command reads its inputs and writes its output at any time between its start and its end',
               'file names on the command line are the files a command uses']

EQ, EQ2 = '@eq{a=b}', '@eq{c=d}'
ASY = '@asy{draw((0,0)--(1,1));}'
IMG, TIF = '@img{i.pdf}', '@img{t.tif}'
SCALE = '@img[scale=2.0]{i.pdf}'

# name: (targets, bodies of the documents)
PROJECTS = {
    'eq-eq': ('html', [EQ + ' ' + EQ]),
    'eq|eq': ('html', [EQ, EQ]),
    'eq|eq|eq': ('html', [EQ, EQ, EQ]),
    'eq,eq2|eq': ('html', [EQ + ' x ' + EQ2, EQ]),
    'img|img': ('html', [IMG, IMG]),
    'img|img|img': ('html', [IMG, IMG, IMG]),
    'img-img': ('html', [IMG + IMG]),
    'tif|tif': ('html', [TIF, TIF]),
    'asy|asy': ('html', [ASY, ASY]),
    'asy-asy': ('html', [ASY + ' ' + ASY]),
    'scale|scale': ('html', [SCALE, SCALE]),
    'two targets img': ('html, xhtml', [IMG, IMG]),
    'two targets eq': ('html, xhtml', [EQ, EQ]),
    'tif tex': ('html, tex', [TIF, TIF]),
    'eq,img|img,eq': ('html', [EQ + IMG, IMG + EQ]),
}


def cases(tier):
    n = 11 if tier == 'thorough' else 8
    for name in PROJECTS:
        for k in range(4):
            yield [name, n, [k]]      # the first choice of the schedule is k (if there are so many)


def outfile(args):
    a = list(map(str, args))
    if a[0] == 'pdflatex':
        opt = dict(x[1:].split('=', 1) for x in a if x.startswith('-') and '=' in x)
        return opt['output-directory'] + '/' + opt['jobname'] + '.pdf', a[-1:]
    if a[0] == 'pdf2svg':
        return a[2], [a[1]]
    if a[0] == 'convert':
        return a[2], [a[1]]
    o = a[a.index('-o') + 1]
    return o, [a[-1]]


def setup():
    from disseminate.builders import builder as bmod
    bmod.find_executable = lambda x: '/bin/' + x


class Monitor(object):
    """What running commands use, and what everybody else does."""

    def __init__(self, oc, case):
        self.oc, self.case = oc, case
        self.running = {}           # job -> (out, inputs)
        self.log = []

    def use(self, who, reads, writes):
        for job, (out, ins) in self.running.items():
            if job is who:
                continue
            for r in reads:
                self.oc.expect(r != out, 'reads-partial', '%r: %s reads %s, which is being written\n%s' %
                               (self.case, self.name(who), r, '\n'.join(self.log)))
            for w in writes:
                self.oc.expect(w != out, 'written-twice', '%r: %s writes %s, which is being written\n%s' %
                               (self.case, self.name(who), w, '\n'.join(self.log)))
                self.oc.expect(w not in ins, 'writes-input', '%r: %s writes %s, which is being read\n%s' %
                               (self.case, self.name(who), w, '\n'.join(self.log)))

    def name(self, who):
        return who if isinstance(who, str) else ' '.join(map(str, who.args))

    def on_start(self, job):
        out, ins = outfile(job.args)
        self.oc.transitions += 1
        self.log.append('start %d: %s' % (job.n, ' '.join(map(str, job.args))))
        for i in ins:
            self.oc.expect(os.path.exists(i), 'missing-input', '%r: %s does not exist\n%s' % (self.case, i, '\n'.join(self.log)))
        self.use(job, ins, [out])
        self.running[job] = (out, ins)
        with builtins.open(out, 'w') as f:
            f.write('par')

    def on_finish(self, job):
        out, ins = self.running.pop(job)
        self.oc.transitions += 1
        self.log.append('finish %d' % job.n)
        with builtins.open(out, 'w') as f:
            f.write('complete %s from %s' % (os.path.basename(out), [os.path.basename(i) for i in ins]))
        return 0


def run_one(oc, case, prefix, limit):
    from disseminate.builders import builder as bmod
    from disseminate.builders import copy as cmod
    from disseminate.builders import jinja_render, save_temp
    from disseminate.builders.composite_builders import ParallelBuilder
    name = case[0]
    targets, bodies = PROJECTS[name]
    d = pathlib.Path(mc.newdir('c06'))
    mon = Monitor(oc, [name])
    s = sched.Scheduler(prefix, limit, mon.on_start, mon.on_finish)
    saved = bmod.executor, cmod.copyfile, pathlib.Path.write_text
    real_copy, real_write = cmod.copyfile, pathlib.Path.write_text

    def copyfile(src, dst, **kw):
        mon.use('the copy of ' + str(src), [str(src)], [str(dst)])
        return real_copy(src, dst, **kw)

    def write_text(self, *a, **kw):
        mon.use('the rendering of ' + str(self), [], [str(self)])
        return real_write(self, *a, **kw)
    try:
        names = ['a.dm', 'b.dm', 'c.dm'][:len(bodies)]
        for k, (f, b) in enumerate(zip(names, bodies)):
            proj.write(d / 's' / f, proj.dm(dict(targets=targets), b + '\n', names[1:] if k == 0 else None))
        proj.write(d / 's/i.pdf', 'a pdf file')
        proj.write(d / 's/t.tif', 'a tif file')
        env = proj.environment(d / 's/a.dm', d / 'o')
        doc = env.root_document
        # rendering the tags adds the builders for their files
        for dd in doc.documents_list(only_subdocuments=False, recursive=True):
            for t in dd.context['builders']:
                getattr(dd.context['body'], t.strip('.'))
        builders = [b for dd in doc.documents_list(only_subdocuments=False, recursive=True)
                    for b in dd.context['builders'].values()]
        # the dependencies of the documents, without the files every template needs
        deps = []
        for b in builders:
            par = b._parallel_builder
            par.subbuilders = [x for x in par.subbuilders if 'media/' in str(x.outfilepath) and not
                               (type(x).__name__ == 'Copy' and 'templates' in str(x.parameters[0]))]
            deps.append(par)
        outs = sorted({str(x.outfilepath) for par in deps for x in par.subbuilders})
        root = ParallelBuilder(env=env)
        root.subbuilders += deps
        bmod.executor, cmod.copyfile, pathlib.Path.write_text = s, copyfile, write_text
        status = root.build(complete=True)
        oc.expect(status == 'done' and not s.running(), 'not-done', '%r: status %r\n%s' % (case, status, '\n'.join(mon.log)))
        oc.expect(outs, 'vacuous', '%r: no outputs' % (case,))
        for o in outs:
            text = open(o).read() if os.path.exists(o) else None
            oc.expect(text is not None and text.startswith('complete'), 'incomplete', '%r: %s is %r\n%s' %
                      (case, o, text, '\n'.join(mon.log)))
        oc.traces += 1
        oc.state([name] + [l.replace(str(d), '') for l in mon.log])
    except sched.Stuck as e:
        oc.fail('stuck', '%r: %s\n%s' % (case, e, '\n'.join(mon.log)))
    finally:
        bmod.executor, cmod.copyfile, pathlib.Path.write_text = saved
        mc.rmdir(d)
    return s


def run(case):
    oc = Outcome()
    name, limit, first = case
    # the schedules whose first choice is given
    prefix, n = list(first), 0
    while True:
        s = run_one(oc, case, prefix, limit)
        t = s.trace
        if not t or t[0][1] != first[0] or t[0][0] <= first[0]:
            if n == 0:
                oc.traces, oc.transitions, oc.states = 0, 0, set()
                oc.violations = []
            return oc
        n += 1
        oc.merge_info(schedules=1)
        if len(oc.violations) > 3:
            return oc
        i = len(t) - 1
        while i >= 1 and t[i][1] + 1 >= t[i][0]:
            i -= 1
        if i < 1:
            break
        prefix = [c for _, c in t[:i]] + [t[i][1] + 1]
    oc.nontrivial += n > 1
    return oc
