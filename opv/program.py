"""The extracted program: functions, classes, enums of /repo's current tree."""
import re


class Unsupported(Exception):
    """construct outside the verifier's reach"""


def strip_type(s):
    s = s.strip()
    ch = True
    while ch:
        ch = False
        for p in ('const ', 'volatile ', 'class ', 'struct ', 'enum ', 'typename '):
            if s.startswith(p):
                s = s[len(p):].strip()
                ch = True
        for p in (' const', '&', '&&', ' volatile'):
            if s.endswith(p):
                s = s[:-len(p)].strip()
                ch = True
    return s


def tstr(t):
    if t is None:
        return ''
    if isinstance(t, str):
        return t
    return t.get('desugaredQualType') or t.get('qualType') or ''


def tstr0(t):
    return t if isinstance(t, str) else (t.get('qualType') or '')


def is_ref(t):
    return tstr0(t).rstrip().endswith('&') or tstr(t).rstrip().endswith('&')


INTS = {'int': (32, True), 'unsigned int': (32, False), 'long': (64, True), 'unsigned long': (64, False),
        'long long': (64, True), 'unsigned long long': (64, False), 'short': (16, True), 'unsigned short': (16, False),
        'char': (8, True), 'unsigned char': (8, False), 'signed char': (8, True), 'size_t': (64, False),
        'std::size_t': (64, False), 'Eigen::Index': (64, True), 'ptrdiff_t': (64, True), 'std::ptrdiff_t': (64, True),
        'unsigned': (32, False), 'uint32_t': (32, False), 'uint64_t': (64, False), 'std::uint32_t': (32, False),
        'std::uint64_t': (64, False), 'int64_t': (64, True), 'int32_t': (32, True), 'std::int64_t': (64, True),
        'std::int32_t': (32, True), 'Index': (64, True), 'StorageIndex': (32, True), 'uint_fast32_t': (64, False),
        'result_type': (64, False), 'size_type': (64, False), 'difference_type': (64, True)}


def params_of(ftype):
    """'double (const double &) const' -> ['const double &']"""
    d = 0
    i = None
    # last top-level '(' group
    s = ftype
    depth = 0
    start = None
    for k, c in enumerate(s):
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif c == '(' and d == 0:
            if depth == 0 and start is None:
                start = k
            depth += 1
        elif c == ')' and d == 0:
            depth -= 1
            if depth == 0:
                inner = s[start + 1:k]
                return split_args(inner)
    return []


def split_args(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '<([{':
            d += 1
        elif c in '>)]}':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def targs(s):
    """template arguments of a type string"""
    i = s.find('<')
    if i < 0 or not s.rstrip().endswith('>'):
        return []
    return split_args(s.rstrip()[i + 1:-1])


class Program:
    def __init__(self, tus):
        self.funcs = {}          # key -> rec (with tu decls)
        self.classes = {}
        self.enums = {}
        self.vars = {}
        self.byname = {}
        for t in tus:
            for q, c in t['classes'].items():
                o = self.classes.get(q)
                if o is None or (c['complete'] and not o['complete']):
                    self.classes[q] = c
            self.enums.update(t['enums'])
            for q, v in t['vars'].items():
                o = self.vars.get(q)
                if o is None or (o['init'] is None and v['init'] is not None):
                    self.vars[q] = dict(v, decls=t['decls'])
            for k, f in t['funcs'].items():
                f['decls'] = t['decls']
                o = self.funcs.get(k)
                if o is None or (o['body'] is None and f['body'] is not None) or \
                        (o['body'] is None and o['default'] is None and f['default'] is not None):
                    if o is not None:
                        f['virtual'] = f['virtual'] or o['virtual']
                        f['pure'] = f['pure'] or o['pure']
                        for p, q_ in zip(f['params'], o['params']):
                            if p['default'] is None and q_['default'] is not None:
                                p['default'] = q_['default']
                                p['default_decls'] = o['decls']
                    self.funcs[k] = f
                else:
                    o['virtual'] = f['virtual'] or o['virtual']
                    for p, q_ in zip(o['params'], f['params']):
                        if p['default'] is None and q_['default'] is not None:
                            p['default'] = q_['default']
                            p['default_decls'] = f['decls']
        self.methods = {}
        for f in self.funcs.values():
            if f['cls']:
                self.methods.setdefault(f['cls'], []).append(f)
            else:
                self.byname.setdefault(f['name'], []).append(f)
        self.short = {}
        for q in self.classes:
            self.short.setdefault(self.shortname(q), []).append(q)

    @staticmethod
    def shortname(q):
        i = q.find('<')
        base = q if i < 0 else q[:i]
        return base.split('::')[-1] + ('' if i < 0 else q[i:])

    def cls(self, name):
        """resolve a class name written any way; None if not a repo class"""
        s = strip_type(name)
        if s in self.classes:
            return s
        c = self.short.get(self.shortname(s))
        if c:
            if len(c) == 1:
                return c[0]
            for q in c:
                if q.endswith(s):
                    return q
            return c[0]
        return self.product(s)

    def product(self, s):
        """std::pair and std::tuple as classes with the fields first, second / 0, 1, ..."""
        b = s.split('<')[0].split('::')[-1]
        if b not in ('pair', 'tuple') or not s.endswith('>'):
            return None
        a = targs(s)
        names = ['first', 'second'] if b == 'pair' else ['%d' % i for i in range(len(a))]
        if len(a) != len(names):
            return None
        self.classes[s] = {'q': s, 'bases': [], 'complete': True, 'product': True,
                           'fields': [{'name': n, 'type': t, 'init': None} for n, t in zip(names, a)]}
        return s

    def need(self, name):
        q = self.cls(name)
        if q is None:
            raise Unsupported('class %s not found' % name)
        return q

    def enum(self, name):
        s = strip_type(name)
        if s in self.enums:
            return s
        for q in self.enums:
            if q.split('::')[-1] == s.split('::')[-1]:
                return q
        return None

    def bases(self, q):
        out = []
        for b in self.classes[q]['bases'] if q in self.classes else ():
            c = self.cls(b)
            if c:
                out.append(c)
        return out

    def ancestors(self, q):
        out = [q]
        for b in self.bases(q):
            for a in self.ancestors(b):
                if a not in out:
                    out.append(a)
        return out

    def derives(self, q, base):
        return base in self.ancestors(q)

    def all_fields(self, q):
        out = []
        for b in self.bases(q):
            out += self.all_fields(b)
        if q in self.classes:
            out += [(q, f) for f in self.classes[q]['fields']]
        return out

    def ctors(self, q):
        return [f for f in self.methods.get(q, ()) if f['kind'] == 'CXXConstructorDecl' and not f['deleted']]

    def find_methods(self, q, name):
        return [f for f in self.methods.get(q, ()) if f['name'] == name]

    def resolve(self, dyn, f):
        """final overrider of virtual method f for dynamic class dyn"""
        sig = [norm_t(x) for x in params_of(f['type'])]
        for c in self.ancestors(dyn):
            for m in self.find_methods(c, f['name']):
                if [norm_t(x) for x in params_of(m['type'])] == sig and \
                        m['type'].rstrip().endswith('const') == f['type'].rstrip().endswith('const'):
                    return m
        return None


def norm_t(s):
    s = re.sub(r'\b(OptionPricer|std|__cxx11)::', '', s)
    s = s.replace('basic_string<char>', 'string')
    return re.sub(r'\s+', '', s)
