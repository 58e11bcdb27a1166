"""C14: tex output keeps braces and environments balanced and allow-listed.

All combinations of tags to depth 2 around texts, all tags with attributes of special values, and all texts for verbatim tags up
to a length are rendered to tex by the real code; a reader of tex (braces, environments, verbatim text) checks the result."""
import itertools
import re
import mc
import texts
from mc import Outcome

PID = 'C14'
LEVEL = 'model_checking'
CASE_TIMEOUT = 600
S = ['plain', 'a {b} c', '{{x}{y}}', '\\{ \\}', 'a | b ! c', '$x_1^{2}$', '\\alpha{} \\frac{1}{2}', '\\% \\& \\$', 'é — €', 'a \\\\ b', '[x]', 'a = b, c']
VALUES = ['v', '3in', '50%', '"two words"', '"{x}"', '"é"', '"a,b"', '2', '"[x]"', "'a \"b\"'"]
KEYS = ['width', 'height', 'class', 'id', 'style', 'color', 'label', 'env', 'href', 'width.tex', 'width.html', 'title', 'v', 'src', 'env.tex']
VCHARS = ['a', '|', '!', '^', '{}', '\\', ' ', '$', '%', '+', '/', '=']
# name -> number of positional attributes an environment or a command of a tag shall be given
ATTRTAGS = texts.INLINE + texts.BLOCKS + texts.VERB + ['@eq{%s}', '@eq[env=alignat* 2]{%s}', '\n\n@eq{%s}\n\n', '@symbol{alpha}%s']
MATH = ['@eq{%s}', '@eq[bold color=blue]{%s}', '@termb{%s}', '@eq[env=alignat* 3]{%s}', '\n\n@eq{%s}\n\n', '@sup{%s}', '@b{@eq{%s}}',
        '@list{\n- @eq{%s}\n}', '@fig{@caption{@eq{%s}}}']
INMATH = ['@sup{%s}', '@sub{%s}', '@b{%s}', '@symbol{alpha} %s', '@i{%s}', '@foo{%s}', '@eq{%s}', '@supsub{%s && b}']
RULE = ('all combinations of %d outer and %d inner tags around %d texts; %d equations around %d tags and the texts; %d tags with each of '
        '%d attribute names, pairs of them (thorough) and %d values; all verbatim texts of up to 4 (thorough: 5) out of %d pieces; a '
        'state is the rendered text' % (len(texts.INLINE + texts.BLOCKS), len(texts.INLINE + texts.VERB), len(S), len(MATH), len(INMATH),
                                        len(ATTRTAGS), len(KEYS), len(VALUES), len(VCHARS)))
ASSUMPTIONS = ['texts have balanced braces and no environments of their own; special characters of tex in texts are the author\'s tex',
               'the tex of highlighted code is written by pygments']
PYG = {'PY', 'PYZbs', 'PYZus', 'PYZob', 'PYZcb', 'PYZca', 'PYZam', 'PYZlt', 'PYZgt', 'PYZsh', 'PYZpc', 'PYZdl', 'PYZhy', 'PYZsq', 'PYZdq',
       'PYZti'}
REFS = {'\\PYZbs{}': '\\', '\\PYZus{}': '_', '\\PYZob{}': '{', '\\PYZcb{}': '}', '\\PYZca{}': '^', '\\PYZam{}': '&', '\\PYZlt{}': '<',
        '\\PYZgt{}': '>', '\\PYZsh{}': '#', '\\PYZpc{}': '%', '\\PYZdl{}': '$', '\\PYZhy{}': '-', '\\PYZsq{}': "'", '\\PYZdq{}': '"',
        '\\PYZti{}': '~'}

ADJACENT = ['@b{x} @i{y}', '@b{@i{x} @i{y}}', 'x@b{ }y', '@i{x}@b{ }@i{y}', '@i{x }@sup{y}']


def cases(tier):
    for i in range(len(texts.INLINE + texts.BLOCKS)):
        yield dict(outer=i)
    for i in range(len(MATH)):
        yield dict(math=i)
    for i in range(len(ATTRTAGS)):
        yield dict(attr=i, n=1 if tier == 'quick' else 2)
    for v in texts.VERBBLOCK:
        yield dict(block=v)
    for a in VCHARS:
        for b in VCHARS:
            yield dict(verb=[a, b], n=2 if tier == 'quick' else 3)


def read(tex):
    """(errors, commands, environments, text without commands, verbatim texts) of a tex text."""
    errors, cmds, envs, stack, text, verbs = [], [], [], [], [], []
    i = 0
    while i < len(tex):
        c = tex[i]
        if c == '\\':
            m = re.compile(r'\\([a-zA-Z]+\*?|.)', re.S).match(tex, i)
            if not m:
                errors.append('a backslash at the end')
                break
            name = m.group(1)
            i = m.end()
            if name == 'verb':
                d = tex[i]
                j = tex.find(d, i + 1)
                if j < 0 or d == '*' or d.isalnum() or '\n' in tex[i:j]:
                    errors.append('verb without an end at %r' % tex[i:i + 20])
                    break
                verbs.append(tex[i + 1:j])
                text.append(tex[i + 1:j])
                i = j + 1
            elif name in ('begin', 'end'):
                m = re.compile(r'\{([^{}]*)\}').match(tex, i)
                if not m:
                    errors.append('\\%s without a name' % name)
                    continue
                env, i = m.group(1), m.end()
                if name == 'begin':
                    envs.append(env)
                    if env == 'verbatim':
                        j = tex.find('\\end{verbatim}', i)
                        if j < 0:
                            errors.append('verbatim without an end')
                            break
                        verbs.append(tex[i:j])
                        text.append(tex[i:j])
                        i = j + len('\\end{verbatim}')
                    else:
                        stack.append(env)
                else:
                    if not stack or stack[-1] != env:
                        errors.append('\\end{%s} in %r' % (env, stack))
                    else:
                        stack.pop()
            elif name[0].isalpha():
                cmds.append(name)
            elif name in '{}':
                text.append('\\' + name)
            else:
                text.append('\\' + name)
        else:
            if c == '{':
                stack.append('{')
            elif c == '}':
                if not stack or stack[-1] != '{':
                    errors.append('} in %r after %r' % (stack, tex[max(0, i - 20):i]))
                else:
                    stack.pop()
            text.append(c)
            i += 1
    if stack:
        errors.append('not closed: %r' % stack)
    return errors, cmds, envs, ''.join(text), verbs


def flat(s):
    for a, b in (('“', '"'), ('”', '"'), ("‘", "'"), ("’", "'")):
        s = s.replace(a, b)
    s = re.sub(r'\s*(---?|–|—)\s*', lambda m: {'--': '–', '---': '—'}.get(m.group(1), m.group(1)), s)
    return ' '.join(s.split())


def live():
    import c15
    return c15.live()


def render(content, doc):
    from disseminate.tags.tag import TagFactory
    doc.label_manager.reset()
    tag = TagFactory.tag(tag_name='body', tag_content=content, tag_attributes='', context=doc.context)
    return str(tag.tex)


def check_out(oc, what, tex, own=''):
    from disseminate import settings as s
    errors, cmds, envs, text, verbs = read(tex)
    oc.transitions += 1
    oc.expect(not errors, 'unbalanced', '%s: %r\n%s' % (what, errors, tex))
    mine = set(re.findall(r'\\([a-zA-Z]+\*?)', own))
    # the widths of the text are values; alpha is the symbol of the texts
    allowed = set(s.tex_cmd_arguments) | set(s.tex_cmd_optionals) | PYG | {'textwidth', 'linewidth', 'alpha'}
    bad = set(cmds) - allowed - mine
    oc.expect(not bad, 'command', '%s: %r\n%s' % (what, sorted(bad), tex))
    allowed = set(s.tex_env_arguments) | set(s.tex_env_optionals) | {'Verbatim'}
    bad = set(envs) - allowed
    oc.expect(not bad, 'environment', '%s: %r\n%s' % (what, sorted(bad), tex))
    oc.state([what, tex])
    oc.nontrivial += 1
    return text, verbs


def refused(e):
    """An error for the author, not a crash."""
    return type(e).__module__.startswith('disseminate')


def run(case):
    oc = Outcome()
    doc = live()
    if 'outer' in case:
        run_nest(oc, doc, (texts.INLINE + texts.BLOCKS)[case['outer']], texts.INLINE + texts.VERB)
    elif 'math' in case:
        run_nest(oc, doc, MATH[case['math']], INMATH)
    elif 'attr' in case:
        run_attr(oc, doc, ATTRTAGS[case['attr']], case['n'])
    elif 'block' in case:
        run_block(oc, doc, case['block'])
    else:
        run_verb(oc, doc, case['verb'], case['n'])
    oc.traces += 1
    return oc


def run_nest(oc, doc, outer, inners):
    for inner in inners:
        for s in S:
            s = s.replace('"', "'")
            text, marks = texts.body(outer, inner, s)
            what = '%r' % text
            try:
                tex = render(text, doc)
            except Exception as e:
                oc.expect(refused(e), 'crash', '%s: %r' % (what, e))
                continue
            got, verbs = check_out(oc, what, tex, s)
            for a, b in marks:
                m = re.search('(?s)%s(.*?)%s' % (texts.mark(a), texts.mark(b)), tex)
                ok = tex.count(texts.mark(a)) == 1 and m and flat(m.group(1)) == flat(s)
                oc.expect(ok, 'text', '%s: %r, not %r\n%s' % (what, m and m.group(1), s, tex))
            # verbatim text stays verbatim; the label of a heading is plain text
            if inner in texts.VERB and not re.match('@(section|title|subsection)', outer) and '\\begin{Verbatim}' not in tex:
                oc.expect(verbs == [texts.mark(3) + s + texts.mark(4)], 'verbatim', '%s: %r\n%s' % (what, verbs, tex))
    # the space between two tags, and nothing else, separates their words
    for adj in ADJACENT if outer not in MATH else ():
        text = outer % (texts.mark(1) + adj + texts.mark(2))
        tex = render(text, doc)
        got, verbs = check_out(oc, repr(text), tex)
        piece = texts.between(got, 1, 2)
        oc.expect(piece is not None and re.sub('[{}$^]', '', piece).split() == ['x', 'y'], 'space', '%r: %r\n%s' % (text, piece, tex))


def run_attr(oc, doc, outer, n):
    name = re.match(r'\s*@(\w+)', outer)
    if not name:
        return
    own = re.match(r'\s*@\w+\[(.*?)\]', outer)
    for keys in itertools.chain(*(itertools.permutations(KEYS, k) for k in range(1, n + 1))):
        for v in VALUES:
            if ']' in v:
                continue
            attrs = ' '.join(v if k == 'v' else '%s=%s' % (k, v) for k in keys)
            given = '%s[%s%s]' % (name.group(0), own.group(1) + ' ' if own else '', attrs)
            text = given + outer[(own or name).end():] % 'Q1q'
            try:
                tex = render(text, doc)
            except Exception as e:
                oc.expect(refused(e), 'crash', '%r: %r' % (text, e))
                oc.state([text, type(e).__name__])
                continue
            got, verbs = check_out(oc, '%r' % text, tex, v)
            oc.expect('Q1q' in tex, 'text', '%r: %s' % (text, tex))
            if 'width.html' in keys and 'width' not in keys and 'width.tex' not in keys and len(keys) == 1 and v == '3in':
                oc.expect('3in' not in tex, 'other-target', '%r: %s' % (text, tex))


def run_block(oc, doc, block):
    for s in S:
        s2 = '\n  ' + s
        text = 'w\n\n' + block % (texts.mark(1) + s2 + texts.mark(2)) + '\n\nw'
        tex = render(text, doc)
        check_out(oc, '%r' % text, tex, s)
        if '\\begin{Verbatim}' in tex:
            plain = tex
            while True:
                plain, n = re.subn(r'\\PY\{[^{}]*\}\{((?:[^{}]|\{\})*)\}', r'\1', plain)
                if not n:
                    break
            for a, b in REFS.items():
                plain = plain.replace(a, b)
        else:
            plain = tex
        got = texts.between(plain, 1, 2)
        oc.expect(got == s2, 'code', '%r: %r\n%s' % (text, got, tex))


def run_verb(oc, doc, head, n):
    for k in range(n + 1):
        for rest in itertools.product(VCHARS, repeat=k):
            s = ''.join(head + list(rest))
            if s.count('{') != s.count('}') or '\\{' in s or '\\}' in s or s != s.strip() or s.startswith('|'):
                continue
            for t in ('@verb{%s}', '@code{%s}', '@b{@v{%s}}'):
                text = 'w ' + t % s + ' w'
                tex = render(text, doc)
                got, verbs = check_out(oc, '%r' % text, tex, s)
                oc.expect(verbs == [s], 'verbatim', '%r: %r\n%s' % (text, verbs, tex))
