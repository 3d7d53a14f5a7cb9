# -*- coding: utf-8 -*-
"""Reference symbol table contexts (Ion 1.0), on top of raw nodes whose syms are str or ('$', sid)."""

SYSTEM = ['$ion', '$ion_1_0', '$ion_symbol_table', 'name', 'version', 'imports', 'symbols', 'max_id',
          '$ion_shared_symbol_table']


class RefError(Exception):
    """Not valid Ion."""


class Unspecified(Exception):
    """The specification leaves the outcome open (or the check does not define it)."""


def sys_table():
    return [s for s in SYSTEM]


class Context(object):
    """tab[i] is the sym of SID i+1. catalog: {name: {version: [text, ...]}}."""

    def __init__(self, catalog=None):
        self.catalog = catalog or {}
        self.reset()

    def reset(self):
        self.tab = sys_table()
        self.is_system = True

    def sym(self, s):
        if isinstance(s, str):
            return s
        sid = s[1]
        if sid == 0:
            return 0
        if sid > len(self.tab):
            raise RefError('SID %d out of range' % sid)
        t = self.tab[sid - 1]
        return ('?', sid) if t is None else t

    def resolve(self, node):
        a, t, p = node
        a = tuple(self.sym(s) for s in a)
        if p is not None:
            if t == 'symbol':
                p = self.sym(p)
            elif t in ('list', 'sexp'):
                p = tuple(self.resolve(c) for c in p)
            elif t == 'struct':
                p = tuple((self.sym(f), self.resolve(c)) for f, c in p)
        return (a, t, p)

    def import_table(self, name, version, max_id):
        versions = self.catalog.get(name)
        if not versions:
            if max_id is None:
                raise RefError('no table %s and no max_id' % name)
            texts = []
        else:
            if version in versions:
                texts = versions[version]
                exact = True
            else:
                texts = versions[max(versions)]
                exact = False
            if max_id is None:
                if not exact:
                    raise RefError('no exact match for %s %d and no max_id' % (name, version))
                max_id = len(texts)
        out = []
        for i in range(max_id):
            t = texts[i] if i < len(texts) else None
            out.append(t if t is not None else ('@', name, i + 1))
        return out

    def lst(self, node):
        """Installs a local symbol table given as a raw struct node."""
        imports, symbols = None, []
        seen = set()
        for f, v in node[2] or ():
            name = self.sym(f)
            a, t, p = v
            if name in ('imports', 'symbols'):
                if name in seen:
                    raise Unspecified('repeated %s' % name)
                seen.add(name)
            if name == 'imports':
                if t == 'list' and p is not None:
                    imports = []
                    for imp in p:
                        if imp[1] != 'struct' or imp[2] is None:
                            continue
                        d = {}
                        for g, w in imp[2]:
                            gn = self.sym(g)
                            if gn in ('name', 'version', 'max_id'):
                                if gn in d:
                                    raise Unspecified('repeated %s' % gn)
                                d[gn] = w
                        nm = d.get('name')
                        if nm is None or nm[1] != 'string' or nm[2] is None or nm[2] == '' or nm[2] == '$ion':
                            continue
                        ver = d.get('version')
                        ver = ver[2] if ver is not None and ver[1] == 'int' and ver[2] is not None else 1
                        if ver < 1:
                            ver = 1
                        mx = d.get('max_id')
                        mx = mx[2] if mx is not None and mx[1] == 'int' and mx[2] is not None else None
                        if mx is not None and mx < 0:
                            mx = None
                        imports.append((nm[2], ver, mx))
                elif t == 'symbol' and p is not None and self.sym(p) == '$ion_symbol_table':
                    imports = 'append'
            elif name == 'symbols':
                if t == 'list' and p is not None:
                    for s in p:
                        symbols.append(s[2] if s[1] == 'string' else None)
        if imports == 'append' and not self.is_system:
            tab = list(self.tab)
        else:
            tab = sys_table()
            if isinstance(imports, list):
                for imp in imports:
                    tab.extend(self.import_table(*imp))
        if imports == 'append' and not self.is_system:
            # Unknown local slots of the previous table keep being unknown.
            pass
        tab.extend(symbols)
        self.tab = tab
        self.is_system = False

    def top_level(self, node, out):
        """Processes one raw top-level node; appends it, resolved, to out unless it is a system value."""
        a, t, p = node
        if t == 'struct' and a and self.sym(a[0]) == '$ion_symbol_table':
            if p is None:
                raise Unspecified('null.struct symbol table')
            self.lst(node)
            return
        if t == 'symbol' and p is not None and not a and self.sym(p) == '$ion_1_0':
            return
        out.append(self.resolve(node))
