"""C15: attributes apply to the targets they name and to no other.

(a) every list of up to three attribute entries over a small universe is read by the real Attributes and by a reference
reader, and every query (find_item, get, filter, strip, copy, totuple) is compared for every target; queries must not
change the attributes;
(b) tags with every subset of general and target-specific entries: rendering for a target must equal rendering the same
tag with only the entries that apply, in every order of targets, without changing the stored attributes."""
import itertools
import os
import mc
import proj
from mc import Outcome

PID = 'C15'
LEVEL = 'model_checking'
CASE_TIMEOUT = 200
RULE = ('entries: all lists of up to 3 of 24 entries (4 in thorough for a subset), 4 targets, all queries; tags: 17 tags '
        'with all subsets of {general, html, xhtml, tex} entries for 1 key and positional values (2 keys in thorough), '
        'rendered for 4 targets in all orders of two; a state is the (entries, target) resolution; the oracle is a '
        'reference resolution')
ASSUMPTIONS = ['the target extensions html, xhtml, tex and css can be named in attributes (settings.tracked_deps)',
               'when only entries for other targets exist, the attribute is absent']

TARGETS = ('html', 'xhtml', 'tex', 'css')
QUERY = (None, 'html', '.html', 'xhtml', '.tex', '.css')

# text of an entry -> (key, target, value); positional entries have value None
ENTRIES = [
    ('a=1', ('a', None, '1')), ('a.html=2', ('a', 'html', '2')), ('a.xhtml=4', ('a', 'xhtml', '4')),
    ('a.tex=3', ('a', 'tex', '3')), ('a="x y"', ('a', None, 'x y')), ("b='x y'", ('b', None, 'x y')),
    ('b="it\'s"', ('b', None, "it's")), ("b='\"q\" r'", ('b', None, '"q" r')), ('b = z', ('b', None, 'z')),
    ("b=\"'q'\"", ('b', None, "'q'")), ('b.tex=page.html', ('b', 'tex', 'page.html')),
    ('f=page.html', ('f', None, 'page.html')), ('f="see index.tex"', ('f', None, 'see index.tex')),
    ('pos', ('pos', None, None)), ('pos.html', ('pos', 'html', None)), ('pos2.tex', ('pos2', 'tex', None)),
    ('7', ('7', None, None)), ('8.tex', ('8', 'tex', None)), ('-3.5', ('-3.5', None, None)),
    ('2.5.html', ('2.5', 'html', None)), ('"q w"', ('q w', None, None)), ("'r s'.tex", None),
    ('my.second', ('my.second', None, None)), ('url#frag', ('url#frag', None, None)),
    ('boxhtml', ('boxhtml', None, None)), ('9.xhtml', ('9', 'xhtml', None)),
    ('notes.html5.html', ('notes.html5', 'html', None)), ('x.texture.tex=6', ('x.texture', 'tex', '6')),
]
ENTRIES = [e for e in ENTRIES if e[1]]


def postype(s):
    from disseminate.utils import types as t
    for f, c in ((int, t.IntPositionalValue), (float, t.FloatPositionalValue)):
        try:
            f(s)
            return c
        except ValueError:
            pass
    return t.StringPositionalValue


def stored(entries):
    """The reference for the dict: the last value of a key, at the place of its first occurrence."""
    d = {}
    for key, target, value in entries:
        full = key if target is None else key + '.' + target
        d[full] = (key, target, postype(key) if value is None else value)
    return d


def resolve(entries, target):
    """The entries that apply to a target: key -> value."""
    d = stored(entries)
    out = {}
    for full, (key, t, value) in d.items():
        if t is None and (target is None or key + '.' + target not in d):
            out[key] = value
        elif t is not None and t == target:
            out[key] = value
    return out


def positional(entries, target, kind):
    """The positional value (of a kind) for a target: one for the target, otherwise the first general one."""
    from disseminate.utils.types import ispositional
    d = stored(entries)
    for want in ([target] if target else []) + [None]:
        for full, (key, t, value) in d.items():
            if t == want and ispositional(value) and issubclass(value, kind):
                return full, key, value
    return None


def cases(tier):
    n = len(ENTRIES)
    yield ['load', [], 2]
    for i in range(n):
        for j in range(n):
            yield ['load', [i, j], 1]
    if tier == 'thorough':
        for t in itertools.product(range(0, n, 2), repeat=4):
            yield ['load', list(t), 0]
    for f in range(len(FORMS)):
        for k in range(len(KEYS)):
            yield ['tag', f, [k]]
            if tier == 'thorough' or f in (0, 1):
                for k2 in range(k + 1, len(KEYS)):
                    yield ['tag', f, [k, k2]]


def check_load(oc, idx):
    from disseminate.attributes import Attributes
    from disseminate.utils import types as ty
    text = ' '.join(ENTRIES[i][0] for i in idx)
    entries = [ENTRIES[i][1] for i in idx]
    a = Attributes(text)
    d = stored(entries)
    want = [(k, v[2]) for k, v in d.items()]
    oc.transitions += 1
    oc.traces += 1
    if not oc.expect(list(a.items()) == want, 'load', '%r reads %r, expected %r' % (text, list(a.items()), want)):
        return
    oc.expect(a.totuple() == tuple(k if v[1] is None and not isinstance(v[2], str) or not isinstance(v[2], str)
                                   else (k, v[2]) for k, v in d.items()), 'totuple', '%r %r' % (text, a.totuple()))
    keys = sorted({e[0] for e in entries} | {'missing', 'a', 'pos'})
    kinds = [ty.PositionalValue, ty.IntPositionalValue, ty.FloatPositionalValue, ty.StringPositionalValue]
    for q in QUERY:
        t = q.strip('.') if q else None
        res = resolve(entries, t)
        oc.state([text, t])
        got = dict(a.filter(target=q))
        oc.transitions += 1
        oc.expect(got == res, 'filter', '%r for %r: %r, expected %r' % (text, q, got, res))
        full = dict(a.filter(target=q, strip=False))
        wfull = {}
        for k, v in res.items():
            wfull[k + '.' + t if t and k + '.' + t in d else k] = v
        oc.expect(full == wfull, 'filter-unstripped', '%r for %r: %r, expected %r' % (text, q, full, wfull))
        for sub in itertools.combinations(keys, 2):
            got = dict(a.filter(attrs=sub, target=q, sort_by_attrs=True))
            w = {k: v for k, v in res.items() if k in sub}
            oc.transitions += 1
            oc.expect(got == w, 'filter-keys', '%r for %r keys %r: %r, expected %r' % (text, q, sub, got, w))
        for k in keys:
            got = a.get(k, target=q, default='none')
            w = res.get(k, 'none')
            oc.transitions += 1
            oc.expect(got == w, 'get', '%r get %r for %r: %r, expected %r' % (text, k, q, got, w))
            fi = a.find_item(k, target=q)
            wk = k + '.' + t if t and k + '.' + t in d else k
            wi = (wk, res[k]) if k in res else None
            oc.expect(fi == wi, 'find_item', '%r find %r for %r: %r, expected %r' % (text, k, q, fi, wi))
        for kind in kinds:
            p = positional(entries, t, kind)
            fi = a.find_item(kind, target=q)
            oc.transitions += 1
            oc.expect(fi == (None if p is None else (p[0], p[2])), 'find-positional',
                      '%r find %s for %r: %r, expected %r' % (text, kind.__name__, q, fi, p))
            g = a.get(kind, target=q)
            oc.expect(g == (None if p is None else p[1]), 'get-positional',
                      '%r get %s for %r: %r, expected %r' % (text, kind.__name__, q, g, p))
            f = dict(a.filter(attrs=[kind], target=q))
            oc.expect(f == ({} if p is None else {p[1]: p[2]}), 'filter-positional',
                      '%r filter %s for %r: %r, expected %r' % (text, kind.__name__, q, f, p))
    f = a.filter(target='tex')
    vals = [(k, v) for k, v in f.items()]
    words = [k if not isinstance(v, str) else '%s=%s' % (k, v) for k, v in vals]
    oc.expect(f.tex_optionals == ('[%s]' % ', '.join(words) if words else ''), 'tex-optionals', '%r: %r' % (text, f.tex_optionals))
    words = [k if not isinstance(v, str) else v for k, v in vals]
    oc.expect(f.tex_arguments == ''.join('{%s}' % w for w in words), 'tex-arguments', '%r: %r' % (text, f.tex_arguments))
    oc.expect(list(a.items()) == want, 'changed-by-query', '%r became %r' % (want, list(a.items())))
    c = a.copy()
    c['new'] = 'x'
    c.append('a', 'more')
    c.append('b', 'more')
    oc.expect(list(a.items()) == want, 'copy-shared', repr(text))
    aval = d.get('a')
    oc.expect(c['a'] == (aval[2] + ' more' if aval else 'more'), 'append', '%r: %r' % (text, c['a']))
    if len(idx) > 1:
        oc.nontrivial += 1


# ------------------------------------------------------------- (b) tags

KEYS = [
    ('class', ['one', 'two', 'three', 'four'], ('html', 'xhtml', 'tex')),
    ('width', ['50%', '30%', '90%', '2in'], ('html', 'xhtml', 'tex')),
    ('alt', ['p', 'q', 'see page.html', 's'], ('html', 'xhtml', 'tex')),
    ('style', ['a:b', 'c:d', 'e:f', 'g:h'], ('html', 'xhtml', 'tex')),
    ('color', ['red', 'blue', 'green', 'black'], ('html', 'xhtml', 'tex')),
    ('env', ['align', 'align*', 'equation', 'equation*'], ('html', 'xhtml', 'tex')),
    (None, ['-1em', '-2em', '-3em', '-4em'], ('html', 'xhtml', 'tex')),
    (None, ['bold', 'bold', 'bold', 'bold'], ('html', 'xhtml', 'tex')),
]
FORMS = [
    '@zz[A]{text}', '@img[A]{p.png}', '@b[A]{text}', '@i[A]{text}', '@fig[A]{@img{p.png} @caption{cap}}',
    '@fig{@img{p.png} @caption[A]{cap}}', '@marginfig[A]{@img{p.png} @caption{cap}}', '@ffig[A]{@img{p.png}}',
    '@fig{@panel[width=30% A]{@img{p.png}}}', '@fig{@panel{A1@img[A]{p.png}}}', '@eq[A]{x}', '@featurebox[A]{text}',
    '@examplebox[A]{text}', '@symbol[A]{alpha}', '@section[nolabel A]{text}', '@p[A]{text}', '@code[A]{text}',
    '@verb[A]{text}', '@quote[A]{text}', '@sup[A]{text}', '@textbf[A]{t}', '@list[A]{\n- a\n- b}',
    '@marginfig[A]{@img[A]{p.png}}', '@caption[A]{t}', '@link[A]{t}', '@supersection[A]{x}', '@note[A]{x}',
]
_live = {}


def live():
    if not _live:
        d = mc.newdir('c15')
        src = os.path.join(d, 'src')
        proj.write(os.path.join(src, 'p.png'), PNG)
        proj.write(os.path.join(src, 'a.dm'), '---\ntargets: html, tex, xhtml\n---\nText\n')
        _live['env'] = proj.environment(os.path.join(src, 'a.dm'), d)
        _live['doc'] = _live['env'].root_document
    return _live['doc']


PNG = bytes.fromhex('89504e470d0a1a0a0000000d4948445200000001000000010802000000907753de0000000c4944415408d763f8cfc000000301'
                    '0100c9fe92ef0000000049454e44ae426082')
RENDER = ('html', 'tex', 'xhtml', 'default')


def make(doc, text):
    from disseminate.tags import Tag
    doc.label_manager.reset()
    return Tag(name='root', content=text, attributes='', context=doc.context)


def snapshot(tag):
    return [(t.name, list(t.attributes.items())) for t in tag.flatten() if hasattr(t, 'attributes')]


def render(tag, target):
    try:
        return str(getattr(tag, target))
    except Exception as e:
        return 'raises ' + type(e).__name__


def text_of(key, value):
    v = '"%s"' % value if ' ' in value else value
    return v if key is None else key + '=' + v


def specific(key, value, target):
    if key is None:
        return value + '.' + target
    return text_of(key + '.' + target, value)


def run_tag(oc, case):
    doc = live()
    form = FORMS[case[1]]
    if form.count('A1'):
        form = form.replace('A1', '')
        form = form.replace('@panel{', '@panel[width=40%]{')
    if '@panel[width=30% A]' in form:
        pass
    spaces = []
    for k in case[2]:
        key, vals, tg = KEYS[k]
        opts = [(None, vals[0])] + [(t, v) for t, v in zip(tg, vals[1:])]
        spaces.append([(key, s) for n in range(5) for s in itertools.combinations(opts, n)])
    for combo in itertools.product(*spaces):
        full = [(text_of(key, v) if t is None else specific(key, v, t)) for key, s in combo for t, v in s]
        for order in ([full, full[::-1]] if len(full) > 1 else [full]):
            attrs = ' '.join(order)
            text = form.replace('A]', attrs + ']').replace('[]', '').replace(' ]', ']')
            tag = make(doc, text)
            before = snapshot(tag)
            first = {}
            for t1, t2 in (('html', 'tex'), ('xhtml', 'html'), ('tex', 'xhtml'), ('default', 'html'), ('tex', 'tex')):
                for t in (t1, t2):
                    if skip(form, t):
                        continue
                    r = render(tag, t)
                    oc.transitions += 1
                    oc.expect(first.setdefault(t, r) == r, 'render-changes', '%r rendered in %s gives %r then %r' %
                              (text, t, first[t], r))
            oc.expect(snapshot(tag) == before, 'render-mutates', '%r: attributes %r became %r' %
                      (text, before, snapshot(tag)))
            for t in RENDER:
                if skip(form, t):
                    continue
                tt = t if t != 'default' else None
                app = []
                for key, s in combo:
                    d = dict(s)
                    gen = d.get(None)
                    if key is None:
                        # positional values: one for the target goes before the general one
                        if tt in d:
                            app.append(text_of(None, d[tt]))
                        elif gen is not None:
                            app.append(text_of(None, gen))
                    elif tt in d:
                        app.append(text_of(key, d[tt]))
                    elif gen is not None:
                        app.append(text_of(key, gen))
                rtext = form.replace('A]', ' '.join(app) + ']').replace('[]', '').replace(' ]', ']')
                want = render(make(doc, rtext), t)
                oc.traces += 1
                oc.state([rtext, t])
                oc.expect(want == first.get(t, want), 'render-target:%s' % t,
                          '%r rendered in %s\n gives    %r\n expected %r (that of %r)' % (text, t, first.get(t), want, rtext))
            if len(oc.violations) > 10:
                return
    oc.nontrivial += 1


def skip(form, t):
    # equations are rendered as images, whose file is named after all attributes
    return '@eq' in form and t in ('html', 'xhtml')


def run(case):
    oc = Outcome()
    if case[0] == 'load':
        n = len(ENTRIES)
        for k in range(case[2] + 1) if not case[1] else [case[2]]:
            for rest in itertools.product(range(n), repeat=k):
                check_load(oc, list(case[1]) + list(rest))
                if len(oc.violations) > 10:
                    return oc
    else:
        run_tag(oc, case)
    return oc
