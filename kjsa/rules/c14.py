"""C14 -- loader cache: one compile per file version, changed files are reloaded."""
from ..check import *

RULE = ('a load returns the cached template exactly when the file has not become newer than '
        'at the last compilation (or reloading is off), else a newly compiled one of the '
        'current file; the loader of every template handed out is the loader itself')
MIN = {'quick': 30}


class World:
    """a loader over files whose versions the case controls"""
    def __init__(self, cx, kind, reload, ext='xml', **opts):
        self.cx, self.lab, self.ip = cx, cx.lab, cx.ip
        self.kind, self.ext = kind, ext
        self.lab.doc = None
        self.lab.files = {'/t/keep': ''}
        self.n = 0
        lab = self.lab
        if reload is not None:      # else the default of the loader
            opts['auto_reload' if kind == 'pyramid' else 'reload'] = Const(reload)
        if kind == 'file':
            self.loader = lab.call(lab.get('kajiki.FileLoader'), Const('/t'), **opts)
        elif kind == 'package':
            lab.hooks_now = None
            self.loader = lab.call(lab.get('kajiki.PackageLoader'), **opts)
        else:
            self.loader = lab.call(
                lab.get('kajiki.integration.pyramid.PyramidKajikiLoader'),
                mode=Const('xml'), **opts)

    def path(self, name):
        return '/t/%s.%s' % (name, self.ext)

    def write(self, name, source, mtime=None):
        self.lab.files[self.path(name)] = source
        if mtime is None:
            self.n += 1
            mtime = Const(100 + self.n * 0.25)
        self.lab.mtimes[self.path(name)] = mtime

    def load(self, name, **kw):
        spec = {'file': '%s.%s' % (name, self.ext), 'package': 't.' + name,
                'pyramid': self.path(name)}[self.kind]
        t = self.lab.m(self.loader, 'load', Const(spec), **kw)
        if self.ip.getattr(t, 'loader') is not self.loader:
            raise Finding('the loader of the template %r is not the loader that loaded it' % name)
        return t

    def compiles(self):
        return sum(1 for e in self.ip.events if e.kind == 'exec')

    def out(self, t, **kw):
        return self.cx.render(t, **kw)

    def same(self, a, b, what):
        if a is not b:
            raise Finding(what + ': a different template object is returned')

    def fresh(self, a, b, what):
        if a is b:
            raise Finding(what + ': the old template object is returned')


def is_(ip, got, want, what):
    g, w = norm(ip, got), norm(ip, S(want))
    if g != w:
        if not free(g):
            raise Unsupported(what)
        raise Finding(what, g, w)


def check(c):
    def listdir(ip, package, d):
        pre = '/' + package.v + '/'
        return ListO([Const(n[len(pre):]) for n in c.lab.files if n.startswith(pre)])
    hooks = dict(c.lab.hooks)
    hooks['pkg.listdir'] = listdir
    hooks['pkg.filename'] = lambda ip, p, n: Const('/%s/%s' % (p.v, n.v))

    def case(key, run, **kw):
        kw.setdefault('hooks', hooks)
        c.case(key, run, rule=RULE, **kw)

    kinds = [('file', 'xml', {}), ('file', 'html', {}), ('file', 'txt', {}),
             ('file', 'html5', {'force_mode': Const('xml')}),
             ('file', 'xml', {'force_mode': Const('text')}),
             ('package', 'xml', {}), ('package', 'txt', {})]
    if c.module('kajiki.integration.pyramid'):
        kinds.append(('pyramid', 'xml', {}))
    D = '' # html5 mode would emit a doctype, so it is not in the list

    def text(n):
        return '<b>%s</b>' % n

    for kind, ext, opts in kinds:
        k = '%s-%s%s' % (kind, ext, '-' + opts['force_mode'].v if opts else '')

        def run(cx, kind=kind, ext=ext, opts=opts):
            w = World(cx, kind, True, ext, **opts)
            w.write('a', text(1))
            w.write('b', text(9))
            a = w.load('a')
            b = w.load('b')
            n = w.compiles()
            w.same(a, w.load('a'), 'unchanged file')
            w.same(b, w.load('b'), 'unchanged file')
            w.same(a, w.load('a'), 'unchanged file')
            if w.compiles() != n:
                raise Finding('an unchanged file is compiled again')
            is_(cx.ip, w.out(a), text(1), 'wrong template')
            is_(cx.ip, w.out(b), text(9), 'wrong template')
            return NONE
        case('unchanged/' + k, run)

        def run(cx, kind=kind, ext=ext, opts=opts):
            w = World(cx, kind, None, ext, **opts)
            w.write('a', text(1))
            a = w.load('a')
            w.write('a', text(2))
            b = w.load('a')
            if kind == 'pyramid':
                w.same(a, b, 'changed file, no reloading by default')
            else:
                w.fresh(a, b, 'changed file, reloading by default')
                is_(cx.ip, w.out(b), text(2), 'wrong template')
            return NONE
        case('default/' + k, run)

        def run(cx, kind=kind, ext=ext, opts=opts):
            w = World(cx, kind, True, ext, **opts)
            w.write('a', text(1))
            w.write('b', text(9))
            a, b = w.load('a'), w.load('b')
            cur = a
            for v in (2, 3, 4):
                w.write('a', text(v))
                new = w.load('a')
                w.fresh(cur, new, 'changed file')
                n = w.compiles()
                w.same(new, w.load('a'), 'loaded again after the reload')
                w.same(b, w.load('b'), 'another template after a reload')
                if w.compiles() != n:
                    raise Finding('an unchanged file is compiled again after a reload')
                is_(cx.ip, w.out(new), text(v), 'the new version is not what is rendered')
                cur = new
            is_(cx.ip, w.out(a), text(1), 'a template handed out earlier changed')
            return NONE
        case('changed/' + k, run)

        def run(cx, kind=kind, ext=ext, opts=opts):
            w = World(cx, kind, False, ext, **opts)
            w.write('a', text(1))
            w.write('b', text(9))
            a, b = w.load('a'), w.load('b')
            n = w.compiles()
            w.write('a', text(2))
            w.same(a, w.load('a'), 'reload is off')
            w.write('b', text(3))
            w.same(b, w.load('b'), 'reload is off')
            w.same(a, w.load('a'), 'reload is off')
            if w.compiles() != n:
                raise Finding('compiled again although reload is off')
            return NONE
        case('reload-off/' + k, run)

        # any two modification times
        def run(cx, kind=kind, ext=ext, opts=opts):
            w = World(cx, kind, True, ext, **opts)
            m0, m1 = Sym('m0', 'int', lo=1), Sym('m1', 'int', lo=1)
            w.write('a', text(1), m0)
            a = w.load('a')
            w.write('a', text(2), m1)
            new = w.load('a')
            newer = cx.ip.truth(cx.ip.compare(ast.Gt(), m1, m0))
            if newer:
                w.fresh(a, new, 'newer modification time')
                is_(cx.ip, w.out(new), text(2), 'the new version is not what is rendered')
            elif cx.eq(m0, m1):
                w.same(a, new, 'equal modification time')
            n = w.compiles()
            w.same(new, w.load('a'), 'loaded again')
            if w.compiles() != n and newer:
                raise Finding('an unchanged file is compiled again')
            return NONE
        case('times/' + k, run)

        # the file is saved again while it is being read
        def run(cx, kind=kind, ext=ext, opts=opts):
            w = World(cx, kind, True, ext, **opts)
            w.write('a', text(1))
            w.race = True

            def read(ip, f):
                s = cx.lab.files[f.attrs['name'].v]
                if w.race:
                    w.race = False
                    w.write('a', text(2))
                return S(s)
            cx.ip.config['hooks'] = dict(hooks, **{'file.read': read})
            w.load('a')
            is_(cx.ip, w.out(w.load('a')), text(2),
                'a file saved while it was read stays stale')
            return NONE
        case('saved-while-read/' + k, run)

        # another thread reloads the same template while this one looks at the file
        def run(cx, kind=kind, ext=ext, opts=opts):
            w = World(cx, kind, True, ext, **opts)
            w.write('a', text(1))
            w.load('a')
            w.write('a', text(2))
            at = cx.pick('at', ('stat-before', 'stat-after', 'read'))
            w.race = False
            base = hooks['os.mtime']

            def other():
                if w.race:
                    w.race = False
                    is_(cx.ip, w.out(w.load('a')), text(2), 'stale template in another thread')

            def mtime(ip, f):
                if at == 'stat-before':
                    other()
                v = base(ip, f)
                if at == 'stat-after':
                    other()
                return v

            def read(ip, f):
                if at == 'read':
                    other()
                return S(cx.lab.files[f.attrs['name'].v])
            cx.ip.config['hooks'] = dict(hooks, **{'file.read': read, 'os.mtime': mtime})
            w.race = True
            is_(cx.ip, w.out(w.load('a')), text(2), 'stale template')
            is_(cx.ip, w.out(w.load('a')), text(2), 'stale template')
            return NONE
        case('two-threads/' + k, run)

    # a version that does not compile, then a good one
    for kind, ext, opts in kinds:
        if ext == 'txt' or opts:
            continue

        def run(cx, kind=kind, ext=ext):
            w = World(cx, kind, True, ext)
            w.write('a', text(1))
            w.write('b', text(9))
            a, b = w.load('a'), w.load('b')
            w.write('a', '<b>')
            for _ in range(cx.pick('tries', (1, 2))):
                try:
                    t = w.load('a')
                except PyExc as e:
                    continue
                raise Finding('a changed file that does not compile is not reported')
            w.same(b, w.load('b'), 'another template after a failed reload')
            if cx.pick('then', ('new', 'restored')) == 'new':
                w.write('a', text(3))
                is_(cx.ip, w.out(w.load('a')), text(3), 'stale template after a failed reload')
            else:
                w.write('a', text(1))
                is_(cx.ip, w.out(w.load('a')), text(1), 'stale template after a failed reload')
            return NONE
        case('broken-version/%s-%s' % (kind, ext), run)

        # templates that other templates use
        def run(cx, kind=kind, ext=ext):
            w = World(cx, kind, True, ext)
            nm = {'file': 'b.' + ext, 'package': 't.b', 'pyramid': '/t/b.' + ext}[kind]
            how = cx.pick('how', ('include', 'import', 'extends'))
            w.write('a', {'include': '<a><py:include href="%s"/></a>' % nm,
                          'import': '<a><py:import href="%s" alias="m"/>${m.f()}</a>' % nm,
                          'extends': '<py:extends href="%s"/>' % nm}[how])
            body = {'include': '<b>%s</b>', 'extends': '<b>%s</b>',
                    'import': '<r><py:def function="f()"><b>%s</b></py:def></r>'}[how]
            wrap = '%s' if how == 'extends' else '<a>%s</a>'
            w.write('b', body % 1)
            a = w.load('a')
            is_(cx.ip, w.out(a), wrap % text(1), 'wrong output')
            b = w.load('b', is_fragment=TRUE)
            w.write('b', body % 2)
            is_(cx.ip, w.out(a), wrap % text(2), 'the changed %sd template is not used' %
                how.rstrip('ed'))
            w.same(a, w.load('a'), 'the using template')
            w.fresh(b, w.load('b', is_fragment=TRUE), 'the used template')
            return NONE
        case('used/%s-%s' % (kind, ext), run)

        def run(cx, kind=kind, ext=ext):
            w = World(cx, kind, False, ext)
            nm = {'file': 'b.' + ext, 'package': 't.b', 'pyramid': '/t/b.' + ext}[kind]
            w.write('a', '<a><py:include href="%s"/></a>' % nm)
            w.write('b', text(1))
            a = w.load('a')
            w.out(a)
            n = w.compiles()
            w.write('b', text(2))
            is_(cx.ip, w.out(a), '<a><b>1</b></a>', 'reload is off')
            if w.compiles() != n:
                raise Finding('compiled again although reload is off')
            return NONE
        case('used-reload-off/%s-%s' % (kind, ext), run)

    # two loaders do not share anything
    def run(cx):
        w1, w2 = World(cx, 'file', True), World(cx, 'file', True)
        w1.write('a', text(1))
        a1, a2 = w1.load('a'), w2.load('a')
        w1.fresh(a1, a2, 'two loaders')
        w1.write('a', text(2))
        is_(cx.ip, w2.out(w2.load('a')), text(2), 'stale template')
        is_(cx.ip, w1.out(w1.load('a')), text(2), 'stale template')
        return NONE
    case('two-loaders', run)

    # names that are alike are different templates
    for kind, ext, opts in kinds:
        if opts:
            continue
        for x, y in (('a', 'A'), ('A', 'a'), ('ab', 'a'), ('a', 'ab'), ('x-y', 'x_y'),
                     ('a1', 'a01'), ('d/a', 'da'), ('d/a', 'e/a'), ('d/a', 'D/a')):
            if '/' in x and kind == 'package':
                continue

            def run(cx, kind=kind, ext=ext, x=x, y=y):
                w = World(cx, kind, cx.pick('reload', (True, False)), ext)
                w.write(x, text(1))
                w.write(y, text(2))
                a = w.load(x)
                is_(cx.ip, w.out(a), text(1), 'wrong template')
                b = w.load(y)
                is_(cx.ip, w.out(b), text(2), 'the template of a similar name')
                w.same(a, w.load(x), 'unchanged file')
                w.same(b, w.load(y), 'unchanged file')
                w.write(y, text(3))
                w.load(y)
                w.same(a, w.load(x), 'a similar name was reloaded')
                return NONE
            case('similar/%s-%s/%s,%s' % (kind, ext, x, y), run)

    # the file to load is looked for at every load
    for ext in ('xml', 'txt'):
        def run(cx, ext=ext):
            w = World(cx, 'file', True, ext)
            path = ('/t', '/u', '/v')
            w.loader = cx.lab.call(cx.lab.get('kajiki.FileLoader'),
                                   ListO([Const(p) for p in path]) if cx.pick('list', (0, 1))
                                   else Const(';'.join(path)))
            cx.lab.files['/v/a.' + ext] = text(1)
            cx.lab.mtimes['/v/a.' + ext] = Const(101)
            is_(cx.ip, w.out(w.load('a')), text(1), 'wrong template')
            first = cx.pick('then', path[:2])
            cx.lab.files['%s/a.%s' % (first, ext)] = text(2)
            cx.lab.mtimes['%s/a.%s' % (first, ext)] = Const(102)
            is_(cx.ip, w.out(w.load('a')), text(2), 'a newer file in an earlier directory is not used')
            if first == '/u':
                cx.lab.files['/t/a.' + ext] = text(3)
                cx.lab.mtimes['/t/a.' + ext] = Const(103)
                is_(cx.ip, w.out(w.load('a')), text(3),
                    'a newer file in an earlier directory is not used')
            cx.lab.files['/v/a.' + ext] = text(4)
            cx.lab.mtimes['/v/a.' + ext] = Const(104)
            is_(cx.ip, w.out(w.load('a')), text(2 if first == '/t' else 3),
                'a file in a later directory is used')
            return NONE
        case('earlier-directory/' + ext, run)

    # same base name in directories
    def run(cx):
        w = World(cx, 'file', True)
        w.write('a', text(1))
        w.write('d/a', text(2))
        a, b = w.load('a'), w.load('d/a')
        w.write('d/a', text(3))
        w.same(a, w.load('a'), 'same name in another directory')
        is_(cx.ip, w.out(w.load('d/a')), text(3), 'stale template')
        w.write('a', text(4))
        n = w.compiles()
        w.load('d/a')
        if w.compiles() != n:
            raise Finding('an unchanged file is compiled again')
        is_(cx.ip, w.out(w.load('a')), text(4), 'stale template')
        return NONE
    case('directories', run)

    # the mock loader
    def run(cx):
        lab = cx.lab
        t = lab.compile('<a><py:include href="b"/></a>')
        u = lab.compile('<b/>')
        ld = lab.call(lab.get('kajiki.MockLoader'), cx.ctx(a=t, b=u))
        if lab.m(ld, 'load', Const('a')) is not t or lab.m(ld, 'import_', Const('b')) is not u:
            raise Finding('MockLoader returns another template')
        for x in (t, u):
            if cx.ip.getattr(x, 'loader') is not ld:
                raise Finding('MockLoader does not become the loader of its templates')
        return cx.render(t)
    case('mock', run, expect='<a><b/></a>')

    # a template that is in two loaders belongs to the one that handed it out last
    def run(cx):
        lab = cx.lab
        t = lab.compile('<a><py:include href="b"/></a>')
        lds = [lab.call(lab.get('kajiki.MockLoader'), cx.ctx(
            a=t, b=lab.compile('<b>%d</b>' % i))) for i in (1, 2)]
        if lab.m(lds[1], 'load', Const('a')) is not t:
            raise Finding('MockLoader returns another template')
        if cx.ip.getattr(t, 'loader') is not lds[1]:
            raise Finding('MockLoader does not become the loader of its templates')
        return cx.render(t)
    case('mock-two', run, expect='<a><b>2</b></a>')
