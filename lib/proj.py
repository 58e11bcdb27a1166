"""Project helpers: write sources, load, build, snapshot."""
import os, pathlib, time, gc
import mc

_clock = [1500000000]


def tick(n=1):
    """A strictly increasing modification time (seconds): edits are always later than everything before."""
    _clock[0] += 10 * n
    return _clock[0]


def write(path, text, t=None):
    path = pathlib.Path(path)
    path.parent.mkdir(parents=True, exist_ok=True)
    if isinstance(text, bytes):
        path.write_bytes(text)
    else:
        with open(str(path), 'w', encoding='utf-8', newline='') as f:
            f.write(text)
    t = tick() if t is None else t
    os.utime(str(path), (t, t))


def dm(header=None, body='', include=None):
    """The text of a .dm document."""
    lines = []
    for k, v in (header or {}).items():
        lines.append('%s: %s' % (k, v))
    if include is not None and len(include):
        lines.append('include:')
        lines += ['  ' + i for i in include]
    if lines:
        return '---\n' + '\n'.join(lines) + '\n---\n' + body
    return body


def environment(root_src, target_root):
    from disseminate.builders.environment import Environment
    return Environment(src_filepath=pathlib.Path(root_src), target_root=pathlib.Path(target_root))


def tree(doc, base=None):
    """Nested [subpath, [children]] of a loaded document."""
    return [str(doc.src_filepath.subpath), [tree(d) for d in doc.subdocuments.values()]]


def names(t):
    out = [t[0]]
    for c in t[1]:
        out += names(c)
    return out
