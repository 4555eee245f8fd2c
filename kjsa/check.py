"""Cases, obligations, findings and evidence."""
import ast
import json
import os
import signal
import time
from .interp import PyExc, Unsupported, Infeasible
from .scen import *
from . import scen

_Sym = scen._v.Sym

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ESC = {'&': '&amp;', '<': '&lt;', '>': '&gt;', '"': '&quot;'}


# ------------------------------------------------------------------ witnesses
# Partitions that stay undecided over unknown texts are analysed once more with
# constants in place of the unknowns (constant propagation): they can then still
# be refuted.
TEXTS = ('&lt;b&gt; &amp; x', 'a"b\'c<i>&', '', ' x\ny ', '<![CDATA[z]]>', '$a ${b} %s %(c)s {0}',
         'None', '0', '\\n\\\\\\', '\u00e9\U0001f600\u00a0', '"', '<', '>', '&', '&amp;',
         'Zq')
NAMES = ('zq', 'x-y', 'Zed', 'a_1')
# seconds; the analysis of an unchanged tree needs a small part of them
CASE_BUDGET, PART_BUDGET, SYMBOLIC_BUDGET, WITNESS_BUDGET = 60, 30, 240, 480
MAX_UNDECIDED = 40          # per case, before it is left to the witnesses
INTS = (0, 1, -7, 255, 256, 10 ** 6)


class Witness:
    def __init__(self):
        self.on = self.used = False
        self.k = 0
        self.seen = {}

    def start(self):
        self.seen = {}

    def value(self, name, ty, props):
        self.used = True
        if name in self.seen:
            return self.seen[name]
        n = self.k + len(self.seen)
        if ty == 'int':
            v = INTS[n % len(INTS)]
            if props.get('lo') is not None:
                v = max(v, props['lo'])
        elif props.get('generic'):
            v = NAMES[n % len(NAMES)] + ('' if n < len(NAMES) else str(n))
        else:
            v = TEXTS[n % len(TEXTS)]
            if props.get('excl'):
                v = ''.join(ch for ch in v if ch not in props['excl'])
            if props.get('trimmed'):
                v = v.strip()
            if props.get('oneline'):
                v = v.replace('\n', '')
            if (props.get('nonempty') or props.get('nonblank')) and not v.strip():
                v = 'w'
        self.seen[name] = Const(v)
        return self.seen[name]


WITNESS = Witness()


SymT = _Sym


def Sym(name, ty='any', **props):
    """an unknown of a rule (a constant when witnesses are in use)"""
    if WITNESS.on and ty in ('str', 'int') and not props.get('code'):
        return WITNESS.value(name, ty, props)
    return _Sym(name, ty, **props)


def txt(name, **props):
    return Sym(name, 'str', **props)


def ground(v):
    """replace the unknowns in a required value by the witnesses in use"""
    t = type(v)
    if t is _Sym:
        return Sym(v.name, v.ty, **v.props)
    if t is Cat:
        return cat(*[ground(p) for p in v.parts])
    if t is Term and v.op == 'hom':
        return Hom.make(ground(v.args[0]), dict(v.args[1]))
    return v


def esc(v):
    """the required image of a dynamic text in XML output"""
    return Hom.make(S(v), ESC)


def esc_static(v):
    """the required image of character data in XML output"""
    return Hom.make(S(v), {k: ESC[k] for k in '&<>'})


def norm(ip, v):
    """canonical form of an abstract string under the facts of the partition"""
    v = ip.resolve(v)
    if ip.alias:
        v = ip.resolve(ip.unaliased(v))
    t = type(v)
    if t is Cat:
        return merge(ip, [norm(ip, p) for p in v.parts])
    if t is Term and v.op == 'hom':
        b = norm(ip, v.args[0])
        m = dict(v.args[1])
        if type(b) is Cat:
            return merge(ip, [norm(ip, Hom.make(p, m)) for p in b.parts])
        if type(b) is Const:
            return Hom.make(b, m)
        ex = ip.excluded(b)
        m = {k: x for k, x in m.items() if k not in ex}
        return Hom.make(b, m)
    if t in (Term, _Sym) and v.ty == 'str' and empty(ip, v):
        return EMPTY
    return v


def empty(ip, v):
    if ip.facts.get(('truth', v)) is False:
        return True
    if v.props.get('nonempty'):
        return False
    n = str_len(v)
    if ip.cmp_int(n, Const(0)) == 0:
        return True
    f = ip.facts
    return f.get(('eq', Const(0), n)) is True or f.get(('eq', n, Const(0))) is True \
        or f.get(('cmpset', n)) == {0}


def _piece(p):
    """(base, start, end, map) of a slice or of the image of a slice"""
    m = ()
    if type(p) is Term and p.op == 'hom':
        m, p = p.args[1], p.args[0]
    if type(p) is Term and p.op == 'slice':
        return p.args[0], p.args[1], p.args[2], m
    if type(p) in (_Sym, Term) and p.ty == 'str':
        return p, Const(0), str_len(p), m
    return None


def merge(ip, parts):
    """join neighbouring pieces of one text"""
    out = []
    for q in (x for p in parts for x in (p.parts if type(p) is Cat else [p])):
        if out and type(q) is not Const:
            a, b = _piece(out[-1]), _piece(q)
            if a and b and a[0] == b[0] and ip.cmp_int(a[2], b[1]) == 0 and \
                    not (ip.cmp_int(a[1], a[2]) == 0 or ip.cmp_int(b[1], b[2]) == 0) and \
                    (a[1], a[2]) != (b[1], b[2]):
                ma, mb = dict(a[3]), dict(b[3])
                # maps may differ on characters the piece cannot contain
                ex = ip.excluded(a[0])
                ea = ex | ip.excluded(mk_slice(a[0], a[1], a[2]))
                eb = ex | ip.excluded(mk_slice(b[0], b[1], b[2]))
                keys = set(ma) | set(mb)
                if all(ma.get(k, k) == mb.get(k, k) or k in ea or k in eb for k in keys):
                    u = {k: (ma if k not in ea else mb).get(k, k) for k in keys}
                    s = mk_slice(a[0], a[1], b[2])
                    if ip.cmp_int(a[1], Const(0)) == 0 and \
                            ip.cmp_int(b[2], str_len(a[0])) == 0:
                        s = a[0]
                    out[-1] = Hom.make(s, u)
                    continue
        out.append(q)
    return cat(*out)


def free(v):
    """only constants, unknowns and their homomorphic images: two such forms
    denote the same function only if they are equal"""
    t = type(v)
    if t in (Const, _Sym):
        return True
    if t is Cat:
        return all(free(p) for p in v.parts)
    if t is Term and v.op == 'hom':
        return type(v.args[0]) is _Sym
    if t is Term and v.op == 'objstr':
        return type(v.args[0]) is Obj
    if t is Term and v.op == 'str':
        return True
    return False


class Dyn:
    """A value of one of the kinds a context can hold.

    text: required image in element content; raw: image without escaping
    (text templates, inputs of attribute concatenation); none: is None."""
    def __init__(self, kind, value, raw, text):
        self.kind, self.value, self.raw, self.text = kind, value, raw, text
        self.none = kind == 'none'

    def __repr__(self):
        return self.kind


KINDS = ('none', 'str', 'int', 'true', 'markup', 'html', 'obj')


class Cx:
    """What a case sees inside one partition."""
    def __init__(self, chk):
        self.chk, self.lab, self.ip = chk, chk.lab, chk.lab.ip
        self.kinds = {}

    def pick(self, name, options):
        options = list(options)
        i = self.ip.choose(len(options), ('input', name, tuple(map(str, options)))) \
            if len(options) > 1 else 0
        self.kinds[name] = str(options[i])
        return options[i]

    def dyn(self, name, kinds=KINDS):
        ip = self.ip
        k = self.pick(name, kinds)
        if k == 'none':
            d = Dyn(k, NONE, EMPTY, EMPTY)
        elif k == 'str':
            s = Sym(name, 'str')
            d = Dyn(k, s, s, esc(s))
        elif k == 'int':
            s = Sym(name, 'int')
            t = ip.to_str(s)
            d = Dyn(k, s, t, t)
        elif k in ('true', 'false'):
            c = Const(k == 'true')
            d = Dyn(k, c, Const(str(c.v)), Const(str(c.v)))
        elif k == 'markup':
            s = Sym(name + '.markup', 'str')
            d = Dyn(k, self.lab.call(self.lab.get('kajiki.template.literal'), s), s, s)
        elif k == 'html':
            s = Sym(name + '.html', 'str')
            c = self.lab.get('kjsa_values.HtmlObj')
            d = Dyn(k, self.lab.call(c, s, Sym(name + '.text', 'str')),
                    Sym(name + '.text', 'str'), s)
        elif k == 'obj':
            s = Sym(name + '.text', 'str')
            c = self.lab.get('kjsa_values.StrObj')
            d = Dyn(k, self.lab.call(c, s), s, esc(s))
        else:
            raise TypeError(k)
        return d

    def eq(self, a, b):
        """decide a == b in this partition (splits it if open)"""
        return self.ip.truth(self.ip.compare(ast.Eq(), S(a), S(b)))

    def ctx(self, **kw):
        d = DictO({Const(k): (v.value if isinstance(v, Dyn) else S(v))
                   for k, v in kw.items()})
        d.label = 'the context dictionary'
        return d

    def template(self, *doc, **kw):
        return self.lab.template(*doc, **kw)

    def render(self, tpl, ctx=None, **kw):
        if ctx is None:
            ctx = self.ctx(**kw)
        return self.lab.render(tpl, ctx)

    def xml(self, *doc, **kw):
        """output of the abstract document with context kw"""
        opts = kw.pop('opts', {})
        return self.render(self.template(*doc, **opts), **kw)

    def src(self, source, **kw):
        """output of the XML template with this concrete source"""
        opts = kw.pop('opts', {})
        return self.render(self.lab.compile(source, **opts), **kw)

    def files(self, files, path='/t', **opts):
        """a FileLoader over the given files (name -> source)"""
        self.lab.doc = None
        self.lab.files = {(n if n.startswith('/') else path + '/' + n): s
                          for n, s in files.items()}
        return self.lab.call(self.lab.get('kajiki.FileLoader'), Const(path),
                             **self.lab.options(opts, True))

    def load(self, loader, name, *a, **kw):
        return self.lab.m(loader, 'load', Const(name), *a, **kw)

    def text(self, source, **kw):
        opts = kw.pop('opts', {})
        t = self.lab.call(self.lab.get('kajiki.TextTemplate'), S(source), **opts)
        return self.render(t, **kw)


EXACT = {'hom', 'str', 'objstr', 'len', 'repr', 'attr', 'getitem', 'item', 'elem'}


def imprecise(trace):
    """a decision of the partition is about a value known only as the result of
    an operation without exact model"""
    todo = [t[2] for t in trace if t[0] > 1]
    while todo:
        v = todo.pop()
        t = type(v)
        if t is Term:
            if v.op not in EXACT:
                return True
            todo += list(v.args)
        elif t is Cat:
            todo += list(v.parts)
        elif t is Lin:
            todo += [k for k, _ in v.atoms]
        elif t in (tuple, list, frozenset):
            todo += list(v)
    return False


class Finding(Exception):
    """raised inside a case by an explicit judgement"""
    def __init__(self, what, got=None, want=None, where=None, exact=False):
        self.exact = exact
        super().__init__(what)
        self.what, self.got, self.want, self.where = what, got, want, where


# every case of a rule naming one of these is analysed again with templates compiled with
# options that make no difference for them
ALTERNATIVES = {
    'frag': {'is_fragment': TRUE, 'filename': Const('/v/w.xml'),
             'autoblocks': lambda: ListO([Const('zzq')]),
             'base_globals': lambda: DictO({Const('zzq'): Const(1)})},
}


class Checker:
    variants = ()

    def __init__(self, prop, root='/repo', tier='quick', only=None, witness_only=False):
        self.witness_only = witness_only
        self.t0 = time.time()
        self.prop, self.tier, self.only = prop, tier, only
        self.root = root
        self.lab = Lab(root)
        self.cases = []
        self.findings = []
        self.obligations = self.discharged = 0
        self.undecided = {}
        self.partitions = 0
        self.samples = []
        self.sites = 0
        self.notes = []
        self.functions = set()
        self.fast = 0           # stop after so many findings of one worker
        self.ticket = None      # next case of this worker; None: all
        self.index = 0

    # ------------------------------------------------------------- parallel
    def parallel(self, check, jobs):
        """analyse the cases of check(self) in forked workers; cases are
        independent of each other, results are merged in their order"""
        import multiprocessing as mp
        ctx = mp.get_context('fork')
        counter = ctx.Value('i', 0)

        def draw():
            with counter.get_lock():
                if self.fast and len(self.findings) > self.fast - 1:
                    counter.value += 10 ** 8
                counter.value += 1
                return counter.value

        def work(conn):
            self.draw = draw
            self.ticket = draw()
            err = None
            try:
                check(self)
            except (AnalysisError, Unsupported, PyExc) as e:
                err = '%s: %s' % (type(e).__name__, e)
            except Exception:
                import traceback
                err = traceback.format_exc()
            conn.send(dict(cases=self.cases, findings=self.findings, err=err,
                           ob=self.obligations, dis=self.discharged, und=self.undecided,
                           parts=self.partitions, samples=self.samples, notes=self.notes,
                           analysed=dict(self.lab.ip.analysed)))
            conn.close()
        procs = []
        for _ in range(jobs):
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=work, args=(b,), daemon=True)
            p.start()
            b.close()
            procs.append((p, a))
        for p, a in procs:
            try:
                r = a.recv()
            except EOFError:
                r = dict(err='a worker died')
            if not r['err']:
                p.join()
            if r['err']:
                for q, _ in procs:
                    q.terminate()
                raise AnalysisError(r['err'])
            self.cases += r['cases']
            self.findings += r['findings']
            self.obligations += r['ob']
            self.discharged += r['dis']
            for k, n in r['und'].items():
                self.undecided[k] = self.undecided.get(k, 0) + n
            self.partitions += r['parts']
            self.samples += r['samples']
            self.notes += r['notes']
            self.lab.ip.analysed.update(r['analysed'])
        self.cases.sort(key=lambda x: x['n'])
        order = {x['case']: x['n'] for x in self.cases}
        self.findings.sort(key=lambda f: order.get(f['case'], 0))
        self.samples = sorted(self.samples, key=lambda f: order.get(f['case'], 0))[:6]

    def module(self, name):
        """load a further module; False if the engine cannot"""
        try:
            self.lab.ip.load_module(name)
        except (PyExc, Unsupported) as e:
            self.notes.append('module %s not analysed: %s' % (name, e))
            return False
        self.lab.ip.seal()
        return True

    # ---------------------------------------------------------------- cases
    def case(self, key, run, expect=None, raises=None, judge=None, rule='',
             min_ok=1, max_paths=400, witness=True, variants=True, **config):
        """One family of abstract inputs.

        run(cx) -> abstract result; expect(cx) or a value -> required result;
        raises: set of exception class names that are required instead;
        judge(cx, result): raise Finding for a violation."""
        for v in ('',) + (tuple(self.variants) if variants else ()):
            k = key + '@' + v if v else key
            if self.only and k != self.only:
                continue
            self.index += 1
            if self.ticket is not None and self.index != self.ticket:
                continue
            self.lab.variant = ALTERNATIVES.get(v)
            try:
                self._case(k, run, expect, raises, judge, rule, min_ok, max_paths,
                           witness, config)
            finally:
                self.lab.variant = None
                if self.ticket is not None:
                    self.ticket = self.draw()

    def _case(self, key, run, expect, raises, judge, rule, min_ok, max_paths,
              witness, config):
        lab, ip = self.lab, self.lab.ip
        info = dict(case=key, rule=rule, n=self.index, partitions=0, decided=0, violated=0,
                    undecided=0)
        self.cases.append(info)
        args = (key, run, expect, raises, judge, rule, max_paths, config, info)
        WITNESS.on = False
        if not self.witness_only:
            self._explore(*args)
        if self.witness_only or info['undecided'] and not info['violated']:
            info['witnessed'] = True
            try:
                for k in range(len(TEXTS) if witness else 0):
                    if time.time() - self.t0 > WITNESS_BUDGET and not self.witness_only:
                        break
                    WITNESS.on, WITNESS.k, WITNESS.used = True, k, False
                    self._explore(*args)
                    if not WITNESS.used:
                        break       # no unknown is involved
            finally:
                WITNESS.on = False
        if info['decided'] + info['violated'] < min_ok:
            self.notes.append('case %s: nothing decided (%s)' % (
                key, '; '.join(list(self.undecided)[-2:])))
            info['vacuous'] = True

    def _explore(self, key, run, expect, raises, judge, rule, max_paths, config, info):
        lab, ip = self.lab, self.lab.ip
        box = {}

        def go():
            box['cx'] = cx = Cx(self)
            if WITNESS.on:
                WITNESS.start()
                cx.kinds['witness'] = WITNESS.k
            box.pop('finding', None)
            try:
                return run(cx)
            except Finding as f:
                box['finding'] = f
                return NONE
        t0 = time.time()
        und0 = info['undecided']
        limit = WITNESS_BUDGET if WITNESS.on else SYMBOLIC_BUDGET
        for r in lab.explore(self.timed(go), max_paths=max_paths, **config):
            signal.setitimer(signal.ITIMER_REAL, 0)
            cx = box['cx']
            if not self.witness_only and (
                    time.time() - t0 > CASE_BUDGET or time.time() - self.t0 > limit
                    or info['undecided'] - und0 >= MAX_UNDECIDED):
                info['undecided'] += 1
                k = 'not analysed further (time or number of undecided partitions)'
                self.undecided[k] = self.undecided.get(k, 0) + 1
                break
            self.partitions += 1
            info['partitions'] += 1
            if r.outcome == 'undecided':
                info['undecided'] += 1
                self.undecided[r.reason] = self.undecided.get(r.reason, 0) + 1
                continue
            try:
                if r.outcome == 'ok' and 'finding' in box:
                    raise box['finding']
                if r.outcome == 'exc':
                    nm = r.exc_names()
                    if raises is not None:
                        ok = bool(nm & set(raises))
                        if not ok:
                            raise Finding('raises %s instead of %s' % (
                                r.exc_text(), ' or '.join(sorted(raises))),
                                where=r.exc.loc)
                        if judge:
                            judge(cx, r)
                    else:
                        raise Finding('raises ' + r.exc_text(), where=r.exc.loc,
                                      want=self._want_safe(expect, cx))
                elif raises is not None:
                    raise Finding('accepted; required: ' + ' or '.join(sorted(raises)),
                                  got=r.value)
                else:
                    if judge:
                        judge(cx, r)
                    if expect is not None:
                        want = self._want(expect, cx)
                        self.same(r.value, want)
            except Finding as f:
                if not WITNESS.on and not f.exact and imprecise(r.trace):
                    # the partition rests on a decision about a text whose value the
                    # domain does not know exactly: it may be empty, so the finding
                    # needs a witness
                    info['undecided'] += 1
                    k = 'needs a witness: ' + f.what
                    self.undecided[k] = self.undecided.get(k, 0) + 1
                    continue
                self.obligations += 1
                info['violated'] += 1
                self.report(key, rule, f, r, cx)
                continue
            except Infeasible:
                continue
            except Unsupported as u:
                info['undecided'] += 1
                self.undecided[str(u)] = self.undecided.get(str(u), 0) + 1
                continue
            self.obligations += 1
            self.discharged += 1
            info['decided'] += 1
            if len(self.samples) < 6 and info['decided'] <= 2:
                self.samples.append(dict(case=key, inputs=dict(cx.kinds),
                                         result=short(r.value) if r.outcome == 'ok'
                                         else r.exc_text()[:200]))

    def timed(self, fn):
        """a partition that takes too long is undecided"""
        def late(*a):
            raise Unsupported('partition takes too long')

        def run():
            signal.signal(signal.SIGALRM, late)
            signal.setitimer(signal.ITIMER_REAL, PART_BUDGET, 5)
            try:
                return fn()
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        return run

    def _want_safe(self, expect, cx):
        try:
            return self._want(expect, cx)
        except (AttributeError, Unsupported, PyExc, Infeasible):
            return None     # the reference itself was not reached

    def _want(self, expect, cx):
        if expect is None:
            return None
        w = expect(cx) if callable(expect) else expect
        w = S(w) if not isinstance(w, (list, tuple)) else cat(*[S(x) for x in w])
        if self.lab.variant and 'is_fragment' in self.lab.variant:
            # a fragment has no DOCTYPE, else it is the same
            h = w.parts[0] if type(w) is Cat else w
            if type(h) is Const and type(h.v) is str and h.v.startswith('<!DOCTYPE') and \
                    '>\n' in h.v:
                rest = Const(h.v[h.v.index('>\n') + 2:])
                w = cat(rest, *w.parts[1:]) if type(w) is Cat else rest
        return ground(w) if WITNESS.on else w

    def same(self, got, want, what='output'):
        ip = self.lab.ip
        g, w = norm(ip, got), norm(ip, want)
        if g == w:
            return
        if g.ty != w.ty and (type(g) is Const or type(w) is Const) and \
                not isinstance(g, HObj):
            raise Finding('%s differs' % what, g, w)
        if not (free(g) and free(w)):
            raise Unsupported('%s not comparable: %s / %s' % (what, short(g), short(w)))
        raise Finding('%s differs' % what, g, w)

    # -------------------------------------------------------------- reports
    def report(self, key, rule, f, r, cx):
        path = []
        for n, idx, label, loc in r.trace:
            if n > 1:
                path.append('%s  %s -> %s' % (loc, short(label), idx))
        gen = [e for e in r.events if e.kind == 'exec']
        self.findings.append(dict(
            property=self.prop, case=key, rule=rule, what=f.what,
            inputs=dict(cx.kinds),
            got=short(f.got) if f.got is not None else None,
            required=short(f.want) if f.want is not None else None,
            where=str(f.where) if f.where else None,
            functions=sorted(r.functions),
            path=path[-25:],
            generated=[e.data[1].v for e in gen[-1:]] if gen else []))

    def lint(self, rule, ok, construct, what, where=None):
        """a structural obligation at a named construct"""
        self.index += 1
        if self.ticket is not None:
            if self.index != self.ticket:
                return
            self.ticket = self.draw()
        self.obligations += 1
        if ok:
            self.discharged += 1
        else:
            self.findings.append(dict(property=self.prop, case=rule, rule=rule,
                                      what=what, inputs={}, got=None, required=None,
                                      where=where or construct, functions=[construct],
                                      path=[], generated=[]))


def short(v, n=400):
    s = show(v) if isinstance(v, V) else str(v)
    return s if len(s) <= n else s[:n] + '...'
