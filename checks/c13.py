"""C13: html and xhtml output is well formed and never turns text into markup.

All combinations of tags to depth 2 around texts from an alphabet of texts special to html, all tags with attributes of special
names and values, and whole documents with special titles, names and labels are rendered by the real code and read back with
parsers of html and xml."""
import html.parser
import itertools
import os
import re
import shutil
import mc
import proj
import build
import texts
from mc import Outcome

PID = 'C13'
LEVEL = 'model_checking'
CASE_TIMEOUT = 600
S = ['plain', '<b>x</b>', '&amp;', 'a & b < c > d', '</div><script>alert(1)</script>', ']]>', '<!-- c -->', '&#60;&lt;', '<?p q?>',
     'é — € 𝔸', '"q" \'r\'', '<img src=x onerror=alert(1)>', '</p></span></code></pre>', '\\begin $x$ # % ~ ^']
VALUES = ['v', 'a<b', 'a&b', '&amp;', '\'x" onclick="y\'', '"<script>"', '"two words"', '"é"', "\"it's\"", ']]>', '"a > b"']
KEYS = ['class', 'id', 'style', 'href', 'src', 'alt', 'onclick', 'title', 'role', 'rel', 'class.html', 'class.xhtml', 'class.tex',
        'onerror', 'type', 'data-x']
RULE = ('all combinations of %d outer and %d inner tags around %d texts; %d tags with each of %d attribute names, pairs of them '
        '(thorough) and %d values; whole projects whose titles, authors, headings, labels and references are each of the texts; '
        'symbols; a state is the rendered text' %
        (len(texts.INLINE + texts.BLOCKS), len(texts.INLINE + texts.VERB), len(S), len(texts.INLINE + texts.BLOCKS), len(KEYS), len(VALUES)))
ASSUMPTIONS = ['texts have balanced braces', 'quotes and dashes may be replaced by typographic ones outside of verbatim text']
VOID = {'br', 'hr', 'img', 'link', 'meta', 'input', 'area', 'base', 'col', 'embed', 'source', 'track', 'wbr'}
NEVER = {'script', 'iframe', 'object', 'embed', 'form', 'input', 'base', 'meta', 'foo', 'svg', 'style'}
SYMBOLS = ['alpha', 'Omega', 'gamma ', 'infty', 'nothere', 'amp', 'lt', 'a;<b>', '', 'rarr', '#60', 'x y', '<script>', 'le', 'hbar']

ADJACENT = ['@b{x} @i{y}', '@b{@i{x} @i{y}}', 'x@b{ }y', '@i{x}@b{ }@i{y}', '@i{x }@sup{y}']


def cases(tier):
    for i in range(len(texts.INLINE + texts.BLOCKS)):
        yield dict(outer=i)
    for i in range(len(texts.VERBBLOCK)):
        yield dict(block=i)
    for i in range(len(texts.INLINE + texts.BLOCKS + texts.VERB)):
        yield dict(attr=i, n=1 if tier == 'quick' else 2)
    yield dict(symbols=1)
    for i in range(len(S)):
        yield dict(doc=i)


def setup():
    build.install()


class Reader(html.parser.HTMLParser):
    """Reads html strictly: elements are nested, all are closed but the void ones."""

    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.open, self.errors, self.elements, self.text = [], [], [], ''
        self.feed(text)
        self.close()
        if self.open:
            self.errors.append('not closed: %r' % self.open)

    def handle_starttag(self, tag, attrs):
        self.elements.append((tag, dict(attrs)))
        if len(dict(attrs)) != len(attrs):
            self.errors.append('an attribute twice: %r' % (attrs,))
        if tag not in VOID:
            self.open.append(tag)

    def handle_startendtag(self, tag, attrs):
        self.elements.append((tag, dict(attrs)))

    def handle_endtag(self, tag):
        if not self.open or self.open.pop() != tag:
            self.errors.append('</%s> closes nothing' % tag)

    def handle_data(self, data):
        self.text += data

    def handle_comment(self, data):
        self.errors.append('a comment: %r' % data)

    def handle_decl(self, decl):
        self.errors.append('a declaration: %r' % decl)

    def handle_pi(self, data):
        self.errors.append('an instruction: %r' % data)

    def unknown_decl(self, data):
        self.errors.append('a declaration: %r' % data)


def read_xml(text):
    """(errors, elements, text) of xhtml."""
    from lxml import etree
    try:
        root = etree.fromstring('<r>%s</r>' % text)
    except etree.XMLSyntaxError as e:
        return ['%s' % e], [], ''
    els = []
    for e in root.iter():
        if e is root:
            continue
        if not isinstance(e.tag, str):
            els.append((str(e), {}))
        else:
            els.append((e.tag, {k.split('}')[-1] if k.startswith('{') else k: v for k, v in e.attrib.items()}))
    return [], els, ''.join(root.itertext())


def flat(s, quotes=True):
    for a, b in ('“"', '”"', "‘'", "’'") if quotes else ():
        s = s.replace(a, b)
    if quotes:
        s = re.sub(r'\s*(---?|–|—)\s*', lambda m: {'--': '–', '---': '—'}.get(m.group(1), m.group(1)), s)
    return ' '.join(s.split())


def allowed():
    from disseminate import settings
    res = {}
    for table in (settings.xhtml_tag_arguments, settings.xhtml_tag_optionals):
        for name, attrs in table.items():
            res.setdefault(name, set()).update(a.split('}')[-1] for a in attrs)
    return res


def render(content, doc, name='body'):
    from disseminate.tags.tag import TagFactory
    doc.label_manager.reset()
    tag = TagFactory.tag(tag_name=name, tag_content=content, tag_attributes='', context=doc.context)
    return tag, {fmt: str(getattr(tag, fmt)) for fmt in ('html', 'xhtml')}


def check_out(oc, what, fmt, out, allow):
    """Well formed, with the elements that are allowed only; returns (elements, text)."""
    if fmt == 'html':
        r = Reader(out)
        errors, els, text = r.errors, r.elements, r.text
    else:
        errors, els, text = read_xml(out)
    oc.expect(not errors, 'malformed:%s' % fmt, '%s: %r\n%s' % (what, errors, out))
    for tag, attrs in els:
        oc.expect(tag not in NEVER and tag in allow, 'element:%s' % fmt, '%s: %s\n%s' % (what, tag, out))
        # pygments writes spans, and the class of its own block
        bad = set(attrs) - allow.get(tag, set())
        oc.expect(not bad and not any(a.startswith('on') for a in attrs), 'attribute:%s' % fmt, '%s: %s %r\n%s' % (what, tag, attrs, out))
    oc.state([what, fmt, out])
    return els, text


def live():
    import c15
    return c15.live()


def run(case):
    oc = Outcome()
    if 'outer' in case:
        run_nest(oc, (texts.INLINE + texts.BLOCKS)[case['outer']])
    elif 'block' in case:
        run_block(oc, texts.VERBBLOCK[case['block']])
    elif 'attr' in case:
        run_attr(oc, (texts.INLINE + texts.BLOCKS + texts.VERB)[case['attr']], case['n'])
    elif 'symbols' in case:
        run_symbols(oc)
    else:
        run_doc(oc, S[case['doc']])
    oc.traces += 1
    return oc


def run_nest(oc, outer):
    doc, allow = live(), allowed()
    data = '"%s"' in outer
    for inner in texts.INLINE + texts.VERB:
        for s in S:
            s = s.replace('"', "'") if data else s
            text, marks = texts.body(outer, inner, s)
            tag, outs = render(text, doc)
            for fmt, out in outs.items():
                oc.transitions += 1
                what = '%r as %s' % (text, fmt)
                els, got = check_out(oc, what, fmt, out, allow)
                for a, b in marks:
                    piece = texts.between(got, a, b)
                    # the label of a heading is plain text
                    verb = a == 3 and inner in texts.VERB and not re.match('@(section|title|subsection)', outer)
                    oc.expect(piece is not None and flat(piece, not verb) == flat(s, not verb), 'text:%s' % fmt,
                              '%s: %r, not %r\n%s' % (what, piece, s, out))
                oc.nontrivial += 1
    # the space between two tags, and nothing else, separates their words
    for adj in ADJACENT:
        text = outer % (texts.mark(1) + adj + texts.mark(2))
        tag, outs = render(text, doc)
        for fmt, out in outs.items():
            what = '%r as %s' % (text, fmt)
            els, got = check_out(oc, what, fmt, out, allow)
            piece = texts.between(got, 1, 2)
            oc.expect(piece is not None and piece.split() == ['x', 'y'], 'space:%s' % fmt, '%s: %r\n%s' % (what, piece, out))
            oc.nontrivial += 1


def run_block(oc, block):
    """Code as a paragraph of its own: the text is there to the letter."""
    doc, allow = live(), allowed()
    for s in S:
        for k in (1, 2):
            s2 = ('\n  ' + s) * k
            text = 'w\n\n' + block % (texts.mark(1) + s2 + texts.mark(2)) + '\n\nw'
            tag, outs = render(text, doc)
            for fmt, out in outs.items():
                oc.transitions += 1
                what = '%r as %s' % (text, fmt)
                els, got = check_out(oc, what, fmt, out, allow)
                piece = texts.between(got, 1, 2)
                oc.expect(piece == s2, 'code:%s' % fmt, '%s: %r\n%s' % (what, piece, out))
                oc.nontrivial += 1
        # all of the code, which starts and ends with spaces or the text itself
        for s2 in ('         ' + s + '\n  ' + s, s + '\n\n    ' + s, s + '  \n' + s):
            text = texts.mark(1) + '\n\n' + block % s2 + '\n\n' + texts.mark(2)
            tag, outs = render(text, doc)
            for fmt, out in outs.items():
                oc.transitions += 1
                what = '%r as %s' % (text, fmt)
                els, got = check_out(oc, what, fmt, out, allow)
                piece = texts.between(got, 1, 2)
                oc.expect(piece is not None and s2 in piece and piece.strip() == s2.strip(), 'code:%s' % fmt, '%s: %r\n%s' % (what, piece, out))
                oc.nontrivial += 1


def unquote(v):
    return v[1:-1] if v[0] in '\'"' else v


def run_attr(oc, outer, n):
    doc, allow = live(), allowed()
    i = outer.find('[')
    name = re.match(r'@(\w+)', outer)
    if not name:
        return
    for keys in itertools.chain(*(itertools.permutations(KEYS, k) for k in range(1, n + 1))):
        for v in VALUES:
            own = re.match(r'@\w+\[(.*?)\]', outer)
            attrs = ' '.join('%s=%s' % (k, v) for k in keys)
            if own and own.group(1).split('=')[0] in [k.split('.')[0] for k in keys]:
                continue
            given = '@%s[%s%s]' % (name.group(1), own.group(1) + ' ' if own else '', attrs)
            text = given + outer[(own or name).end():] % 'Q1q'
            if ']' in v:
                continue
            tag, outs = render(text, doc)
            for fmt, out in outs.items():
                oc.transitions += 1
                what = '%r as %s' % (text, fmt)
                els, got = check_out(oc, what, fmt, out, allow)
                oc.expect('Q1q' in got, 'text:%s' % fmt, '%s\n%s' % (what, out))
                # the value as it was given, or with classes added
                for el, at in els:
                    for k, x in at.items():
                        if k in [q.split('.')[0] for q in keys] and ('<' in x or '&' in x or '"' in x):
                            oc.expect(unquote(v) in x, 'value:%s' % fmt, '%s: %s=%r\n%s' % (what, k, x, out))
                mine = [k for k in keys if k in ('class', 'id', 'style')]
                oc.nontrivial += 1
                if len(keys) == 1 and outer in ("@foo{%s}", "@script{%s}", "@sidenote{%s}") and mine:
                    for k in mine:
                        oc.expect(any(at.get(k) == unquote(v) for el, at in els), 'kept:%s' % fmt, '%s: %s\n%s' % (what, k, out))


def run_symbols(oc):
    doc, allow = live(), allowed()
    for s in SYMBOLS:
        for t in ('@symbol{%s}', '@smb{%s}'):
            text = 'Q1q ' + t % s + ' Q2q'
            try:
                tag, outs = render(text, doc)
            except Exception as e:
                oc.state([text, type(e).__name__])
                continue
            for fmt, out in outs.items():
                oc.transitions += 1
                what = '%r as %s' % (text, fmt)
                els, got = check_out(oc, what, fmt, out, allow)
                oc.expect(texts.between(got, 1, 2), 'symbol', '%s: %s' % (what, out))


def run_doc(oc, s):
    """A project whose titles, authors, headings, references are the text: the pages are well formed and show it."""
    base = mc.newdir('c13')
    try:
        src = os.path.join(base, 'src')
        head = {'title': s, 'author': s, 'short': s, 'targets': 'html, epub'}
        proj.write(os.path.join(src, 'a.dm'), proj.dm(head, '@section[id=s1]{%s}\n\nText. @ref{s1} @ref{s2}\n\n@toc{all headings}\n\n'
                                                      '@authors{} @titlepage{}' % s, include=['b.dm']))
        proj.write(os.path.join(src, 'b.dm'), proj.dm(head, '@section[id=s2]{%s}\n\n@ref{s1} @prev{} @next{}\n' % s))
        env = proj.environment(os.path.join(src, 'a.dm'), base)
        status = env.build(complete=True)
        env.decider._db and env.decider._db.close() if hasattr(env.decider, '_db') else None
        what = 'documents with %r' % s
        oc.expect(status == 'done', 'status', '%s: %r' % (what, status))
        for page in ('a', 'b'):
            with open(os.path.join(base, 'html', page + '.html')) as f:
                out = f.read()
            # the templates have a declaration, and comments of their own
            r = Reader(re.sub(r'<!(?i:doctype)[^>]*>', '', out))
            oc.transitions += 1
            errors = [e for e in r.errors if not e.startswith('a comment') or e == "a comment: ' c '"]
            oc.expect(not errors, 'page', '%s: %r\n%s' % (what, errors, out))
            oc.expect('alert' not in ''.join(str(e[1]) for e in r.elements if e[0] == 'img') and
                      not re.search(r'<script>alert', out), 'injected', '%s: %s' % (what, out))
            m = re.search(r'(?s)<title>(.*?)</title>', out)
            import html as h
            oc.expect(m and flat(h.unescape(m.group(1))) == flat(s), 'title', '%s: %r' % (what, m and m.group(1)))
            oc.expect(flat(r.text).count(flat(s)) >= 3, 'shown', '%s: %d times' % (what, flat(r.text).count(flat(s))))
            oc.nontrivial += 1
        import zipfile
        from lxml import etree
        books = [os.path.join(b, f) for b, _, fs in os.walk(base) for f in fs if f.endswith('.epub')]
        oc.expect(books, 'no-epub', what)
        for b in books:
            with zipfile.ZipFile(b) as z:
                for n in z.namelist():
                    if n.endswith(('.xhtml', '.opf', '.ncx', '.xml')):
                        try:
                            root = etree.fromstring(z.read(n))
                        except etree.XMLSyntaxError as e:
                            oc.fail('epub', '%s: %s: %s' % (what, n, e))
                            continue
                        bad = [e.tag for e in root.iter() if isinstance(e.tag, str) and e.tag.split('}')[-1] in ('script', 'img')]
                        oc.expect(not bad, 'injected', '%s: %s: %r' % (what, n, bad))
    finally:
        shutil.rmtree(base, True)
