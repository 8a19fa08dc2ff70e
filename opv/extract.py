"""Mechanical extraction of /repo's C++ sources: clang's own AST (JSON) of every translation
unit, re-dumped on every run.  Nothing is rewritten: the verifier interprets these AST nodes.

What extraction drops: comments, attributes, source positions (kept only for messages), the
bodies of third-party functions (std, Eigen, boost), and whatever the preprocessor removes for
the build's own configuration (same -include flags as the build script).
"""
import json, os, re, subprocess, sys, tempfile, shutil, hashlib, pickle
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor

REPO = os.environ.get('OPV_REPO', '/repo')
CLANG = '/usr/bin/clang++-18'
HERE = os.path.dirname(os.path.abspath(__file__))
FLAGS = ['-std=c++20', '-O1', '-isystem', '/usr/include/eigen3', '-I' + REPO + '/include', '-w']
BASE_INC = ['cmath', 'stdexcept', 'vector', 'memory', 'string', 'optional', 'variant', 'random',
            'algorithm', 'numeric', 'functional', 'unordered_map', 'map', 'mutex', 'iostream',
            'ostream', 'limits', 'utility', 'typeinfo', 'cxxabi.h', 'concepts', 'array', 'ranges',
            'tuple', 'span', 'execution', 'type_traits', 'cassert', 'cstdlib', 'iterator', 'set',
            'Eigen/Dense', 'Eigen/Sparse', 'Eigen/SparseLU', 'boost/random/sobol.hpp',
            'boost/random/faure.hpp']


class ExtractError(Exception):
    pass


def repo_sources():
    out = []
    for root, d, files in os.walk(os.path.join(REPO, 'src')):
        d.sort()
        for f in sorted(files):
            if f.endswith(('.cpp', '.cc', '.cxx')):
                out.append(os.path.join(root, f))
    return out


def repo_headers():
    out = []
    for top in ('include', 'src'):
        for root, d, files in os.walk(os.path.join(REPO, top)):
            d.sort()
            for f in sorted(files):
                if f.endswith(('.h', '.hpp', '.hh', '.tpp', '.inl')):
                    out.append(os.path.join(root, f))
    return out


def third_party_includes(files):
    incs = []
    own = set()
    for h in repo_headers():
        own.add(os.path.basename(h))
    for f in files:
        for m in re.finditer(r'^\s*#\s*include\s*<([^>]+)>', open(f, errors='replace').read(), re.M):
            h = m.group(1)
            if os.path.exists(os.path.join(REPO, 'include', h)):
                continue
            if h not in incs:
                incs.append(h)
    return incs


def header_exists(h):
    for base in ('/usr/include/eigen3', '/usr/include', '/usr/include/c++/13',
                 '/usr/include/x86_64-linux-gnu/c++/13'):
        if os.path.exists(os.path.join(base, h)):
            return True
    return False


def _trim(n, text=b''):
    """drop bulky keys we never use; a reference to a static third-party member keeps its spelling (class::name)"""
    if isinstance(n, dict):
        r = n.get('range')
        if n.get('kind') == 'DeclRefExpr' and n.get('referencedDecl', {}).get('kind') == 'CXXMethodDecl' and r:
            b, e = r.get('begin', {}).get('offset'), r.get('end', {})
            if b is not None and e.get('offset') is not None:
                end = e['offset'] + e.get('tokLen', 0)
                nm = n['referencedDecl'].get('name', '').encode()
                if nm and text[e['offset']:end] == nm:
                    n['src'] = re.sub(r'\s+', '', text[b:end].decode(errors='replace'))
        line = None
        loc = n.get('loc')
        n.pop('range', None)
        for k in ('isReferenced', 'isUsed', 'hadMultipleCandidates', 'valueCategory0', 'path', 'definitionData0'):
            n.pop(k, None)
        for c in n.get('inner', ()):
            _trim(c, text)


class TU:
    pass


def _find_repo_line(loc):
    if not loc:
        return None
    return loc.get('line')


def _process(path, jsonfile):
    """Load one AST dump and reduce it to declarations of interest."""
    sys.setrecursionlimit(100000)
    with open(jsonfile) as f:
        top = json.load(f)
    os.unlink(jsonfile)
    tu = {'path': path, 'funcs': {}, 'classes': {}, 'enums': {}, 'vars': {}, 'decls': {}}
    decls = tu['decls']        # id -> small record

    def walk(n, ns, cls):
        k = n.get('kind')
        if k is None:
            return
        name = n.get('name')
        if k == 'NamespaceDecl':
            nn = ns + [name if name else '(anon)']
            if name in ('std', '__gnu_cxx', 'Eigen', 'boost', '__cxxabiv1'):
                pass
            for c in n.get('inner', ()):
                walk(c, nn, cls)
            return
        if k in ('LinkageSpecDecl', 'ExportDecl'):
            for c in n.get('inner', ()):
                walk(c, ns, cls)
            return
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'ClassTemplatePartialSpecializationDecl'):
            targs = ''
            if k == 'ClassTemplateSpecializationDecl':
                ta = [c.get('type', {}).get('qualType', str(c.get('value', ''))) for c in n.get('inner', ())
                      if c.get('kind') == 'TemplateArgument']
                targs = '<' + ', '.join(ta) + '>'
            q = '::'.join(ns + [name or '(anon)']) + targs
            if cls:
                q = cls + '::' + (name or '(anon)') + targs
            decls[n['id']] = {'k': 'class', 'q': q, 'name': (name or '') + targs}
            if n.get('completeDefinition') or n.get('inner'):
                rec = tu['classes'].setdefault(q, {'q': q, 'name': (name or '') + targs, 'bases': [], 'fields': [],
                                                   'methods': [], 'complete': False, 'ids': []})
                rec['ids'].append(n['id'])
                if n.get('completeDefinition'):
                    rec['complete'] = True
                    rec['bases'] = [b['type'].get('desugaredQualType', b['type']['qualType']) for b in n.get('bases', ())]
                    rec['abstract'] = n.get('definitionData', {}).get('isAbstract', False)
                for c in n.get('inner', ()):
                    ck = c.get('kind')
                    if ck == 'FieldDecl':
                        decls[c['id']] = {'k': 'field', 'name': c.get('name'), 'cls': q, 'type': c.get('type')}
                        fl = {'name': c.get('name'), 'type': c.get('type'), 'init': None}
                        if c.get('hasInClassInitializer'):
                            inn = [x for x in c.get('inner', ()) if x.get('kind') and not x['kind'].endswith('Attr')]
                            fl['init'] = inn[-1] if inn else None
                        rec['fields'].append(fl)
                    else:
                        walk(c, ns, q)
            return
        if k == 'ClassTemplateDecl':
            for c in n.get('inner', ()):
                if c.get('kind') == 'ClassTemplateSpecializationDecl':
                    walk(c, ns, cls)
                elif c.get('kind') == 'CXXRecordDecl':
                    # the generic pattern: remember ids only
                    decls[c['id']] = {'k': 'class', 'q': '::'.join(ns + [c.get('name') or '']), 'name': c.get('name'), 'tmpl': True}
            return
        if k == 'FunctionTemplateDecl':
            inner = [c for c in n.get('inner', ()) if c.get('kind') in
                     ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl')]
            for i, c in enumerate(inner):
                if i == 0:
                    walkfn(c, ns, cls, tmpl=True)
                else:
                    walkfn(c, ns, cls)
            return
        if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            walkfn(n, ns, cls)
            return
        if k == 'EnumDecl':
            q = (cls + '::' if cls else '::'.join(ns) + '::') + (name or '(anon)')
            vals = []
            cur = -1
            for c in n.get('inner', ()):
                if c.get('kind') == 'EnumConstantDecl':
                    v = None
                    for x in c.get('inner', ()):
                        if x.get('kind') == 'ConstantExpr' and 'value' in x:
                            v = int(x['value'])
                        elif x.get('kind') == 'IntegerLiteral':
                            v = int(x['value'])
                    cur = v if v is not None else cur + 1
                    vals.append((c['name'], cur))
                    decls[c['id']] = {'k': 'enumerator', 'name': c['name'], 'enum': q, 'value': cur}
            tu['enums'][q] = vals
            return
        if k == 'VarDecl':
            if cls is None and 'parentDeclContextId' in n:
                d = decls.get(n['parentDeclContextId'])
                if d and d['k'] == 'class':
                    cls = d['q']
            q = (cls + '::' if cls else ('::'.join(ns) + '::' if ns else '')) + (name or '')
            init = [x for x in n.get('inner', ()) if x.get('kind') and not x['kind'].endswith('Attr')]
            rec = {'q': q, 'type': n.get('type'), 'init': init[-1] if init else None, 'id': n['id'], 'tu': path}
            decls[n['id']] = {'k': 'gvar', 'q': q, 'type': n.get('type'),
                              'static': n.get('storageClass') == 'static' and not cls}
            old = tu['vars'].get(q)
            if old is None or old['init'] is None:
                tu['vars'][q] = rec
            return
        if k in ('UsingDecl', 'UsingShadowDecl', 'ConstructorUsingShadowDecl', 'TypedefDecl', 'TypeAliasDecl',
                 'FriendDecl', 'EmptyDecl', 'AccessSpecDecl', 'UsingDirectiveDecl', 'UsingEnumDecl'):
            if k == 'FriendDecl':
                for c in n.get('inner', ()):
                    if c.get('kind') == 'FunctionDecl':
                        walkfn(c, ns, None)
            return

    def walkfn(n, ns, cls, tmpl=False):
        name = n.get('name')
        k = n['kind']
        if cls is None and 'parentDeclContextId' in n:
            d = decls.get(n['parentDeclContextId'])
            if d and d['k'] == 'class':
                cls = d['q']
        q = (cls + '::' if cls else ('::'.join(ns) + '::' if ns else '')) + (name or '')
        params = []
        body = None
        inits = []
        targs = []
        for c in n.get('inner', ()):
            ck = c.get('kind')
            if ck == 'ParmVarDecl':
                dflt = [x for x in c.get('inner', ()) if x.get('kind') and not x['kind'].endswith('Attr')]
                params.append({'name': c.get('name'), 'id': c['id'], 'type': c.get('type'),
                               'default': dflt[-1] if ('init' in c and dflt) else None})
                decls[c['id']] = {'k': 'param', 'name': c.get('name'), 'type': c.get('type')}
            elif ck in ('CompoundStmt', 'CXXTryStmt'):
                body = c
            elif ck == 'CXXCtorInitializer':
                inits.append(c)
            elif ck == 'TemplateArgument':
                targs.append(c.get('type', {}).get('qualType'))
        mangled = n.get('mangledName') or q
        internal = n.get('storageClass') == 'static' and not cls or '(anon)' in q
        key = mangled + ('@' + path if internal else '')
        if k == 'CXXConstructorDecl' and 'CI1' in mangled:
            pass
        rec = {'key': key, 'name': name, 'q': q, 'cls': cls, 'kind': k, 'params': params, 'body': body,
               'inits': inits, 'type': n.get('type', {}).get('qualType'), 'virtual': n.get('virtual', False),
               'pure': n.get('pure', False), 'static': n.get('storageClass') == 'static', 'tu': path,
               'implicit': n.get('isImplicit', False), 'default': n.get('explicitlyDefaulted'),
               'deleted': n.get('explicitlyDeleted', False), 'targs': targs, 'tmpl': tmpl,
               'override': any(c.get('kind') == 'OverrideAttr' for c in n.get('inner', ())),
               'line': (n.get('loc') or {}).get('line'), 'defined': body is not None}
        decls[n['id']] = {'k': 'func', 'key': key, 'name': name, 'q': q, 'cls': cls}
        if tmpl:
            return
        old = tu['funcs'].get(key)
        if old is None:
            tu['funcs'][key] = rec
        else:
            # merge virtual flag and defaults; prefer the definition
            for p, o in zip(rec['params'], old['params']):
                if p['default'] is None:
                    p['default'] = o['default']
                if o['default'] is None:
                    o['default'] = p['default']
            rec['virtual'] = old['virtual'] = rec['virtual'] or old['virtual']
            rec['override'] = old['override'] = rec['override'] or old['override']
            rec['pure'] = old['pure'] = rec['pure'] or old['pure']
            rec['static'] = old['static'] = rec['static'] or old['static']
            if rec['default'] is None:
                rec['default'] = old['default']
            if rec['body'] is not None or old['body'] is None:
                if rec['default'] is None:
                    rec['default'] = old['default']
                tu['funcs'][key] = rec
        # local classes (lambdas) are reached through the body

    for c in top.get('inner', ()):
        walk(c, [], None)
    # friends: out-of-line definitions whose class is only known by parentDeclContextId are done
    # second pass for out-of-line members whose class record came later is unnecessary (class first)
    text = open(path, 'rb').read()
    for fn in tu['funcs'].values():
        if fn['body']:
            _trim(fn['body'], text)
        for i in fn['inits']:
            _trim(i, text)
    # anything declared inside the third-party PCH is absent from this dump
    return tu


def third_party(workdir):
    """precompiled third-party headers (std, Eigen, boost), shared by the dump and by the replay build"""
    os.makedirs(workdir, exist_ok=True)
    srcs = repo_sources()
    if not srcs:
        raise ExtractError('no sources under %s/src' % REPO)
    incs = list(dict.fromkeys(BASE_INC + [h for h in third_party_includes(srcs + repo_headers())]))
    incs = [h for h in incs if header_exists(h)]
    pch_h = os.path.join(workdir, 'third_party.h')
    pch = pch_h + '.pch'
    with open(pch_h, 'w') as f:
        for h in incs:
            f.write('#include <%s>\n' % h)
    r = subprocess.run([CLANG] + FLAGS + ['-x', 'c++-header', pch_h, '-o', pch], capture_output=True, text=True)
    if r.returncode:
        raise ExtractError('third-party PCH: ' + r.stderr[-2000:])
    return pch


def extract(workdir, extra=(), jobs=8, pch=None):
    """Return list of TU dicts.  extra: additional (verif-side) TUs that only instantiate templates."""
    pch = pch or third_party(workdir)
    todo = list(enumerate(repo_sources() + list(extra)))
    with ProcessPoolExecutor(jobs) as ex:
        tus = list(ex.map(_job, [(i, p, workdir, pch) for i, p in todo]))
    bad = [t for t in tus if isinstance(t, str)]
    if bad:
        # an instantiation helper that no longer compiles only narrows what is reached
        own = [t for t in bad if not any(t.startswith(e) for e in extra)]
        if own:
            raise ExtractError(own[0])
        tus = [t for t in tus if not isinstance(t, str)]
    return tus


def literals(tus):
    """numeric literals of the program text: seeds for the search for a failing input"""
    out = set()

    def go(n):
        if isinstance(n, dict):
            if n.get('kind') in ('FloatingLiteral', 'IntegerLiteral'):
                try:
                    out.add(float(n['value']))
                except Exception:
                    pass
            for c in n.get('inner', ()):
                go(c)
    for t in tus:
        for f in t['funcs'].values():
            if f['body']:
                go(f['body'])
            for i in f['inits']:
                go(i)
        for v in t['vars'].values():
            if v['init']:
                go(v['init'])
    return sorted(out)


def _job(a):
    i, path, workdir, pch = a
    out = os.path.join(workdir, 'tu%03d.json' % i)
    with open(out, 'w') as f:
        r = subprocess.run([CLANG] + FLAGS + ['-include-pch', pch, '-fsyntax-only', '-Xclang', '-ast-dump=json', path],
                           stdout=f, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        return '%s: %s' % (path, r.stderr[-1500:])
    return _process(path, out)


if __name__ == '__main__':
    import time
    t = time.time()
    w = tempfile.mkdtemp(prefix='opv')
    try:
        tus = extract(w)
        n = sum(1 for t_ in tus for f in t_['funcs'].values() if f['body'])
        print(len(tus), 'TUs', n, 'bodies', round(time.time() - t, 1), 's')
    finally:
        shutil.rmtree(w)
