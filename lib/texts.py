"""Bodies of documents: all combinations of tags (to depth 2) around texts with special characters, with marks in the text.

Used by C13 (html) and C14 (tex)."""
INLINE = ['@b{%s}', '@i{%s}', '@sup{%s}', '@sub{%s}', '@foo{%s}', '@script{%s}', '@sidenote{%s}', '@a[href=u]{%s}', '@para{%s}',
          '@p{%s}', '@caption{%s}']
BLOCKS = ['%s', '@section{%s}', '@chapter[nolabel]{%s}', '@title{%s}', '@subsection{%s}', '@featurebox{%s}', '@examplebox{w\n\n%s\n\nw}',
          '@list{\n- %s\n- w\n}', '@orderedlist{\n- w\n  - %s\n}', '@marginfig{@caption{%s}}', '@fig{@panel[width=50%%]{%s}}',
          '@ffig[id=f]{w @caption{%s} w}', '@table{@caption{%s}@data{a,b\nc,d}}', '@table{@data{a,b\n"%s",d}}', '@blockquote{%s}',
          '@table[id=t]{@data{"%s",b\nc,d}}']
VERB = ['@verb{%s}', '@v{%s}', '@code{%s}', '@pre{%s}', '@python{%s}', '@dm{%s}', '@html{%s}']
VERBBLOCK = ['@verbatim{%s}', '@code[python]{%s}', '@html{%s}', '@dm{%s}', '@ruby{%s}', '@java{%s}', '@javascript{%s}']


def mark(n):
    return 'Q%dq' % n


def body(outer, inner, s, sep=''):
    """(text, [(mark, mark)]): outer(s inner(s) s)."""
    pieces = mark(1) + s + mark(2) + sep + (inner % (mark(3) + s + mark(4))) + sep + mark(5) + s + mark(6)
    return outer % pieces, [(1, 2), (3, 4), (5, 6)]


def between(text, a, b):
    """The text between two marks, or None; each mark is there once."""
    a, b = mark(a), mark(b)
    if text.count(a) != 1 or text.count(b) != 1 or text.index(a) > text.index(b):
        return None
    return text[text.index(a) + len(a):text.index(b)]
