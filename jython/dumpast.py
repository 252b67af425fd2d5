# runs in Jython: the parse trees of the repository's source files, as JSON lists
import ast

def enc(n):
    if isinstance(n, ast.AST):
        cls = n.__class__.__name__
        if cls in ('Load', 'Store', 'Del', 'Param', 'AugLoad', 'AugStore'):
            return cls
        d = [cls, getattr(n, 'lineno', 0)]
        f = {}
        for k in (n._fields or ()):
            if k == 'ctx':
                continue
            f[k] = enc(getattr(n, k, None))
        d.append(f)
        return d
    if isinstance(n, (list, tuple)):
        return ['L', [enc(x) for x in n]]
    if n is None:
        return None
    if isinstance(n, bool):
        return ['bool', n]
    if isinstance(n, unicode):
        return ['u', n]
    if isinstance(n, str):
        return ['s', ''.join([unichr(ord(c)) for c in n])]
    if isinstance(n, (int, long)):
        return ['i', str(n)]
    if isinstance(n, float):
        return ['f', repr(n)]
    try:
        if hasattr(n, '__iter__'):
            return ['L', [enc(x) for x in n]]
    except Exception:
        pass
    s = str(n)
    return ['s', ''.join([unichr(ord(c)) for c in s])]

def dump(path):
    src = open(path, 'rb').read().replace('\r\n', '\n')
    if not src.endswith('\n'):
        src += '\n'
    return enc(ast.parse(src, path))
