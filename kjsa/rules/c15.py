"""C15 -- loader resolution: right file, right template kind, all options forwarded."""
from ..check import *
from .c14 import is_

RULE = ('a loader renders what the template constructor selected by extension or force_mode '
        'gives for the first matching file with the options of the loader and of the call; '
        'without a matching file it raises IOError naming the template')
MIN = {'quick': 60}

XML = '<d> <p/> <br/><script>a&lt;b</script> <k>$x</k> ${g} q </d>'
TEXT = '<b>$x</b> ${g}\n%if x is None\nnone\n%end\n'
EXT = {'xml': 'xml', 'html': 'html', 'html5': 'html5'}


def names(cx, r, name):
    """the error names the template"""
    e = r.exc.val
    a = e.attrs.get('args')
    s = cx.ip.to_str(e)
    s = norm(cx.ip, s)
    if type(s) is Const and name not in s.v:
        raise Finding('the error does not name the template: %r' % s.v)


def check(c):
    K = ('str', 'none')

    def direct(cx, text, source, **opts):
        f = cx.lab.get('kajiki.TextTemplate' if text else 'kajiki.XMLTemplate')
        return cx.render(cx.lab.call(f, Const(source), **opts), x=cx.x, k=Const(3))

    def via(cx, ext, source, lopts, copts, args=()):
        ld = cx.files({'a.' + ext: source, 'z.xml': '<z/>'}, **lopts)
        return cx.render(cx.load(ld, 'a.' + ext, *args, **copts), x=cx.x, k=Const(3))

    glob = lambda: DictO({Const('g'): Const('G')})
    OPTS = {
        'none': {},
        'strip_text': {'strip_text': TRUE},
        'cdata_scripts': {'cdata_scripts': FALSE},
        'autoblocks': {'autoblocks': lambda: ListO([Const('k')])},
        'is_fragment': {'is_fragment': TRUE},
        'two': {'strip_text': TRUE, 'cdata_scripts': FALSE},
    }

    def val(o):
        return {k: (v() if callable(v) else v) for k, v in o.items()}

    for ext in ('xml', 'html', 'html5', 'txt'):
        for force in (None, 'xml', 'html', 'html5', 'text'):
            text = force == 'text' or (force is None and ext == 'txt')
            mode = None if text else force or EXT[ext] if force or ext != 'xml' else None
            src = TEXT if text else XML
            for name, o in OPTS.items():
                if text and name not in ('none', 'is_fragment'):
                    continue
                if c.tier == 'quick' and ext in ('xml', 'html') and force in ('html', 'xml') \
                        and name == 'two':
                    continue
                for where in ('loader', 'call'):
                    if where == 'call' and name == 'none':
                        continue

                    def run(cx, ext=ext, force=force, o=o, where=where, text=text, mode=mode,
                            src=src):
                        cx.x = cx.dyn('x', K)
                        lopts = {'base_globals': glob()}
                        if force:
                            lopts['force_mode'] = Const(force)
                        copts = {}
                        (lopts if where == 'loader' else copts).update(val(o))
                        d = dict(val(o), base_globals=glob())
                        if mode and not text:
                            d['mode'] = Const(mode)
                        cx.other = direct(cx, text, src, **d)
                        return via(cx, ext, src, lopts, copts)
                    c.case('options/%s/%s/%s/%s' % (ext, force, name, where), run,
                           lambda cx: cx.other, rule=RULE)

            # options with a name of their own, and who wins
            if text:
                for lo, lt, co, want in ((None, None, None, 0), (True, None, None, 1),
                                         (None, True, None, 1), (None, None, True, 1),
                                         (True, None, False, 0), (False, None, True, 1),
                                         (None, False, True, 1), (None, True, False, 0)):
                    def run(cx, ext=ext, force=force, lo=lo, lt=lt, co=co, want=want):
                        cx.x = cx.dyn('x', K)
                        lopts = {'base_globals': glob()}
                        if force:
                            lopts['force_mode'] = Const(force)
                        if lo is not None:
                            lopts['autoescape_text'] = Const(lo)
                        if lt is not None:
                            lopts['autoescape'] = Const(lt)
                        copts = {} if co is None else {'autoescape': Const(co)}
                        cx.other = direct(cx, True, TEXT, autoescape=Const(bool(want)),
                                          base_globals=glob())
                        return via(cx, ext, TEXT, lopts, copts)
                    c.case('autoescape/%s/%s/%s-%s-%s' % (ext, force, lo, lt, co), run,
                           lambda cx: cx.other, rule=RULE)
            else:
                for lo, lt, co, want in (('k', None, None, 'k'), (None, 'k', None, 'k'),
                                         (None, None, 'k', 'k'), ('p', None, 'k', 'k'),
                                         (None, 'p', 'k', 'k')):
                    def run(cx, ext=ext, force=force, lo=lo, lt=lt, co=co, want=want, mode=mode):
                        cx.x = cx.dyn('x', K)
                        lopts = {'base_globals': glob()}
                        if force:
                            lopts['force_mode'] = Const(force)
                        if lo:
                            lopts['xml_autoblocks'] = ListO([Const(lo)])
                        if lt:
                            lopts['autoblocks'] = ListO([Const(lt)])
                        copts = {'autoblocks': ListO([Const(co)])} if co else {}
                        d = {'mode': Const(mode)} if mode else {}
                        cx.other = direct(cx, False, XML, autoblocks=ListO([Const(want)]),
                                          base_globals=glob(), **d)
                        return via(cx, ext, XML, lopts, copts)
                    c.case('autoblocks/%s/%s/%s-%s-%s' % (ext, force, lo, lt, co), run,
                           lambda cx: cx.other, rule=RULE)
                for l, k in ((True, False), (False, True)):
                    def run(cx, ext=ext, force=force, l=l, k=k, mode=mode):
                        cx.x = cx.dyn('x', K)
                        lopts = {'base_globals': glob(), 'strip_text': Const(l),
                                 'cdata_scripts': Const(l)}
                        if force:
                            lopts['force_mode'] = Const(force)
                        d = {'mode': Const(mode)} if mode else {}
                        cx.other = direct(cx, False, XML, strip_text=Const(k),
                                          cdata_scripts=Const(k), base_globals=glob(), **d)
                        return via(cx, ext, XML, lopts, {'strip_text': Const(k),
                                                         'cdata_scripts': Const(k)})
                    c.case('call-wins/%s/%s/%s' % (ext, force, k), run, lambda cx: cx.other,
                           rule=RULE)

            # options of one call do not stick to the loader
            def run(cx, ext=ext, force=force, src=src, text=text):
                cx.x = cx.dyn('x', K)
                lopts = {'base_globals': glob()}
                if force:
                    lopts['force_mode'] = Const(force)
                ld = cx.files({n + '.' + ext: src for n in 'ab'}, **lopts)
                get = lambda n, **kw: cx.render(cx.load(ld, n + '.' + ext, **kw), x=cx.x,
                                                k=Const(3))
                get('a', **({'autoescape': TRUE} if text else
                            {'strip_text': TRUE, 'cdata_scripts': FALSE, 'is_fragment': TRUE}))
                out = get('b')
                cx.other = via(cx, ext, src, dict(lopts, base_globals=glob()), {})
                return out
            c.case('not-sticky/%s/%s' % (ext, force), run, lambda cx: cx.other, rule=RULE)

            # encoding and file name
            def run(cx, ext=ext, force=force, src=src, text=text, mode=mode):
                cx.x = cx.dyn('x', ('str',))
                lopts = {'base_globals': glob()}
                if force:
                    lopts['force_mode'] = Const(force)
                how = cx.pick('encoding', ('none', 'loader', 'call', 'positional', 'both'))
                copts, args = {}, ()
                if how in ('loader', 'both'):
                    lopts['encoding'] = Const('latin-1')
                want = {'none': 'utf-8', 'loader': 'latin-1'}.get(how, 'koi8-r')
                if how == 'positional':
                    args = (Const('koi8-r'),)
                elif how in ('call', 'both'):
                    copts['encoding'] = Const('koi8-r')
                uni = src.replace('</b>', '\u0416\xa4</b>').replace('<p/>', '<p>\u0416\xa4</p>')
                if want == 'latin-1':
                    uni = uni.replace('\u0416', '\xe9')
                if want == 'koi8-r':
                    uni = uni.replace('\xa4', '\xb0')
                m = {} if text else {'mode': Const(mode)} if mode else {}
                cx.other = direct(cx, text, uni, base_globals=glob(), **m)
                return via(cx, ext, uni.encode(want), lopts, copts, args)
            c.case('encoding/%s/%s' % (ext, force), run, lambda cx: cx.other, rule=RULE)

            if not text:
                def run(cx, ext=ext, force=force):
                    ld = cx.files({'a.' + ext: '<d>', 'z.xml': '<z/>'},
                                  **({'force_mode': Const(force)} if force else {}))
                    return cx.load(ld, 'a.' + ext)

                def judge(cx, r, ext=ext):
                    names(cx, r, '/t/a.' + ext)
                c.case('file-name/%s/%s' % (ext, force), run,
                       raises={'XMLTemplateParseError'}, judge=judge, rule=RULE)

    # search path ---------------------------------------------------------------------
    for how in ('string', 'list'):
        dirs = ('/p', '/q/r', '/s')
        for sub in ('', 'e/'):
            def run(cx, how=how, sub=sub):
                lab = cx.lab
                have = [d for d in dirs if cx.pick(d, ('there', 'missing')) == 'there']
                lab.doc = None
                lab.files = {'%s/%sa.xml' % (d, sub): '<b>%s</b>' % d for d in have}
                lab.files['/keep/z.xml'] = ''
                lab.files['a.xml'] = '<b>wrong</b>'
                lab.files['/a.xml'] = '<b>wrong</b>'
                if sub:
                    for d in dirs:
                        lab.files[d + '/a.xml'] = '<b>wrong</b>'
                p = Const(';'.join(dirs)) if how == 'string' else ListO([Const(d) for d in dirs])
                ld = lab.call(lab.get('kajiki.FileLoader'), p)
                cx.have = have
                try:
                    t = lab.m(ld, 'load', Const(sub + 'a.xml'))
                except PyExc as e:
                    if have:
                        raise
                    if not isinstance(e.val, Obj) or 'OSError' not in {
                            k.name for k in e.val.cls.mro}:
                        raise Finding('raises %s for a missing template' % describe(cx.ip, e.val))
                    s = norm(cx.ip, cx.ip.to_str(e.val))
                    if type(s) is Const and sub + 'a.xml' not in s.v:
                        raise Finding('the error does not name the template: %r' % s.v)
                    return Const('missing')
                return cx.render(t)
            c.case('path/%s/%s' % (how, sub or '.'), run,
                   lambda cx: '<b>%s</b>' % cx.have[0] if cx.have else 'missing', rule=RULE)

    # names with more than one dot, and dots in directories
    OUT = {'xml': '<d><br/></d>', 'html': '<d><br></d>', 'html5': '<!DOCTYPE html>\n<d><br></d>',
           'txt': '<d><br/></d>'}
    for ext in OUT:
        for name in ('a.%s', 'a.b.%s', 'a.txt.%s', 'a.xml.%s', 'a.html.%s', 's.xml/a.%s',
                     's.txt/a.b.%s', 'A-b_c 1.%s', 'a..%s', '.a.%s', 'xml.%s', 'txt.html.%s'):
            for root in ('/t', '/t.xml', '/x/t.d', '/t.txt'):
                def run(cx, name=name % ext, root=root):
                    cx.lab.doc = None
                    cx.lab.files = {root + '/' + name: '<d><br/></d>', '/keep/z': ''}
                    ld = cx.lab.call(cx.lab.get('kajiki.FileLoader'), Const(root))
                    t = cx.load(ld, name)
                    if cx.ip.getattr(t, 'filename') != Const(root + '/' + name):
                        raise Finding('the file name of the template is %s' % short(
                            cx.ip.getattr(t, 'filename')))
                    return cx.render(t)
                c.case('names/%s/%s' % (root, name % ext), run, OUT[ext], rule=RULE)

    # a file that vanished
    for rel in (True,):
        for n in (1, 2):
            def run(cx, n=n):
                lab = cx.lab
                lab.doc = None
                lab.files = {'/t/a.xml': '<a/>', '/t/b.xml': '<b/>', '/keep/x': ''}
                ld = lab.call(lab.get('kajiki.FileLoader'), Const('/t'))
                for _ in range(n):
                    cx.load(ld, 'a.xml')
                cx.load(ld, 'b.xml')
                del lab.files['/t/a.xml']
                return cx.load(ld, 'a.xml')
            c.case('vanished/%d' % n, run, raises={'OSError'},
                   judge=lambda cx, r: names(cx, r, 'a.xml'), rule=RULE)

    def run(cx):
        lab = cx.lab
        lab.doc = None
        lab.files = {'/t/a.xml': '<a/>', '/t/b.xml': '<b/>', '/keep/x': ''}
        ld = lab.call(lab.get('kajiki.FileLoader'), Const('/t'))
        cx.load(ld, 'a.xml')
        del lab.files['/t/a.xml']
        try:
            cx.load(ld, 'a.xml')
        except PyExc:
            pass
        out = cx.render(cx.load(ld, 'b.xml'))
        lab.files['/t/a.xml'] = '<a>2</a>'
        lab.mtimes['/t/a.xml'] = 9
        return cat(out, cx.render(cx.load(ld, 'a.xml')))
    c.case('vanished/back', run, '<b/><a>2</a>', rule=RULE)

    # packages ------------------------------------------------------------------------
    exts = ('.xml', '.html', '.html5', '.txt')
    for order in (exts, exts[::-1], ('.html5', '.txt', '.xml', '.html')):
        def run(cx, order=order):
            lab = cx.lab
            lab.doc = None
            have = [e for e in order if cx.pick(e, ('there', 'missing')) == 'there']
            listing = ['other.xml', 'm'] + ['m' + e for e in have] + [
                'm.py', 'mm.xml', 'z.txt', '__init__.py', 'a.m.xml']
            lab.files = {'/pkg/sub/' + n: n for n in listing}
            cx.have = have
            for e in have:
                lab.files['/pkg/sub/m' + e] = '<b>%s</b>' % e

            def listdir(ip, package, d):
                if package != Const('pkg.sub'):
                    raise Finding('looks in the package %r' % (package,))
                return ListO([Const(n) for n in listing])

            def fname(ip, package, n):
                if package != Const('pkg.sub'):
                    raise Finding('looks in the package %r' % (package,))
                return Const('/pkg/sub/' + n.v)
            cx.ip.config['hooks'] = dict(lab.hooks, **{'pkg.listdir': listdir,
                                                       'pkg.filename': fname})
            ld = lab.call(lab.get('kajiki.PackageLoader'))
            try:
                t = lab.m(ld, 'load', Const('pkg.sub.m'))
            except PyExc as e:
                if have:
                    raise
                if 'OSError' not in {k.name for k in e.val.cls.mro}:
                    raise Finding('raises %s for a missing template' % describe(cx.ip, e.val))
                s = norm(cx.ip, cx.ip.to_str(e.val))
                if type(s) is Const and 'pkg.sub.m' not in s.v:
                    raise Finding('the error does not name the template: %r' % s.v)
                return Const('missing')
            return cx.render(t)

        def want(cx):
            for e in exts:
                if e in cx.have:
                    return ('<!DOCTYPE html>\n' if e == '.html5' else '') + '<b>%s</b>' % e
            return 'missing'
        c.case('package/%s' % '-'.join(order), run, want, rule=RULE)

    for force in ('xml', 'html', 'html5', 'text'):
        def run(cx, force=force):
            lab = cx.lab
            lab.doc = None
            cx.x = cx.dyn('x', K)
            src = '<b>$x<br/><script/></b>'
            lab.files = {'/pkg/m.html': src, '/keep/x': ''}
            cx.ip.config['hooks'] = dict(lab.hooks, **{
                'pkg.listdir': lambda ip, p, d: ListO([Const('m.html')]),
                'pkg.filename': lambda ip, p, n: Const('/pkg/' + n.v)})
            ld = lab.call(lab.get('kajiki.PackageLoader'), force_mode=Const(force))
            cx.other = direct(cx, force == 'text', src,
                              **({} if force == 'text' else {'mode': Const(force)}))
            return cx.render(lab.m(ld, 'load', Const('pkg.m')), x=cx.x)
        c.case('package/force/' + force, run, lambda cx: cx.other, rule=RULE)

    # pyramid -------------------------------------------------------------------------
    if c.module('kajiki.integration.pyramid'):
        P = 'kajiki.integration.pyramid.'
        for mode in ('xml', 'html', 'html5', None):
            def run(cx, mode=mode):
                lab = cx.lab
                lab.doc = None
                cx.x = cx.dyn('x', K)
                src = '<b>$x<br/><script/></b>'
                lab.files = {'/app/m.kajiki': src, '/keep/x': ''}
                ld = lab.call(lab.get(P + 'PyramidKajikiLoader'),
                              **({'mode': Const(mode)} if mode else {}))
                frag = cx.pick('how', ('call', 'fragment')) == 'fragment'
                cx.other = direct(cx, False, src, mode=Const(mode or 'html5'),
                                  is_fragment=Const(frag))
                if frag:
                    return lab.m(ld, 'fragment', Const('app:m.kajiki'), cx.ctx(x=cx.x),
                                 request=Const(1))
                return lab.call(ld, cx.ctx(x=cx.x), cx.ctx(renderer_name=Const('app:m.kajiki')))
            c.case('pyramid/%s' % mode, run, lambda cx: cx.other, rule=RULE)
