# -*- coding: utf-8 -*-
"""Replays histories (creation of analyzers, calls, races) on the implementation
and records them.  Every history runs in its own forked child of a process that
has imported the library but created no analyzer.

usage: drive_hist.py JOB OUT SHARD NSHARDS    | drive_hist.py --resume STATE OUT
JOB (json): {configs: [...], calls: [[kind, ...]], histories: [{id, evs: [[kind, x, y], ...]}]}"""
from __future__ import print_function
import hashlib, io, itertools, json, os, pickle, signal, subprocess, sys, threading, time, warnings, gc
warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import drive
from drive import p4, f3, micro

JOB = {}
UNITSETS = {}
TYPES = {}

def typed(m, p):
    """the result is of the type asked for"""
    t = TYPES[id(m)][1]
    return type(p) is tuple if t is tuple else isinstance(p, t)


def make(c):
    cfg = JOB['configs'][c - 1]
    import pymorphy2
    kw = {}
    for k in ('path', 'lang'):
        if cfg.get(k): kw[k] = cfg[k]
    if cfg.get('units'):
        key = cfg.get('shared')
        if key:                     # the very same unit objects are given to several analyzers
            if key not in UNITSETS: UNITSETS[key] = drive.make_units(cfg['units'], cfg.get('unitlang', 'ru'))
            kw['units'] = UNITSETS[key]
        else:
            kw['units'] = drive.make_units(cfg['units'], cfg.get('unitlang', 'ru'))
    if cfg.get('unitobj') is not None:          # unit classes with constructor arguments
        from pymorphy2 import units as U
        import hist_classes
        def one(u):
            if not u[1]: return getattr(U, u[0], None) and getattr(U, u[0])() or getattr(hist_classes, u[0])()
            kw = dict((k, set(v['set']) if isinstance(v, dict) and 'set' in v else tuple(v['tuple']) if isinstance(v, dict) else v) for k, v in u[1].items())
            return getattr(U, u[0], getattr(hist_classes, u[0], None))(**kw)
        kw['units'] = [[one(x) for x in u] if isinstance(u[0], list) else one(u) for u in cfg['unitobj']]
    if cfg.get('clone') and 'units' in kw:
        kw['units'] = [[x.clone() for x in u] if isinstance(u, list) else u.clone().clone() for u in kw['units']]
    if 'subst' in cfg: kw['char_substitutes'] = cfg['subst']
    if cfg.get('noprob'): kw['probability_estimator_cls'] = None
    if cfg.get('plain'): kw['result_type'] = None
    cls = pymorphy2.MorphAnalyzer
    if cfg.get('own'):
        import hist_classes
        if 'estimator' in cfg['own']: kw['probability_estimator_cls'] = hist_classes.HalfEstimator
        if 'result' in cfg['own']: kw['result_type'] = hist_classes.MyParse
        if 'row' in cfg['own']: kw['result_type'] = hist_classes.Row
        if 'class' in cfg['own']: cls = hist_classes.MyAnalyzer
    m = cls(**kw)
    t = kw.get('result_type', pymorphy2.analyzer.Parse)
    TYPES[id(m)] = m, t or tuple
    return m


def lexeme(m, p):
    return [f3(f) for f in m.get_lexeme(p)]

# first phase: obtain; second phase: look
def phase1(m, q):
    k = q[0]
    if k in ('parse', 'lex', 'norm', 'infl', 'agree', 'isknown', 'cyr', 'in', 'attrs', 'inset', 'rich', 'one'): return m.parse(q[1])
    if k in ('tag', 'tagcyr', 'tagin'): return m.tag(q[1])
    if k == 'nfs': return m.normal_forms(q[1])
    if k == 'known': return [m.word_is_known(q[1]), m.word_is_known(q[1], strict=True)]
    if k == 'iter':
        it = m.iter_known_word_parses(q[1])
        return list(itertools.islice(it, 2)), it
    if k == 'l2c': return m.lat2cyr(q[1])
    if k == 'c2l': return m.cyr2lat(q[1])
    if k in ('newtag', 'upd'): return m.TagClass(q[1])
    if k == 'gknown': return m.TagClass.grammeme_is_known(q[1])
    if k == 'rare': return m.TagClass.fix_rare_cases(set(q[1]))
    if k in ('combo', 'all', 'walk'): return None
    if k == 'kind': return [type(m).__name__, [type(p).__name__ for p in m.parse(q[1])], [getattr(p, 'shout', '') for p in m.parse(q[1])]]
    if k == 'meta': return (m.lang, m.dictionary.path if hasattr(m.dictionary, 'path') else '')
    raise ValueError(k)

def phase2(m, x, q):
    k = q[0]
    if k == 'all':
        w = q[1]
        return [[p4(p) for p in m.parse(w)], [str(t) for t in m.tag(w)], m.normal_forms(w), [lexeme(m, p) for p in m.parse(w)],
                m.word_is_known(w), m.word_is_known(w, strict=True), all(typed(m, p) and all(typed(m, f) for f in m.get_lexeme(p)) for p in m.parse(w))]
    if k == 'walk':
        return [[p4(p), lexeme(m, p), typed(m, p)] for p in itertools.islice(m.iter_known_word_parses(q[1]), q[2])]
    if k == 'combo': return [quiet(lambda: phase2(m, phase1(m, c), c)) for c in q[1]]
    if k == 'parse': return [p4(p) for p in x]
    if k == 'lex': return [lexeme(m, p) for p in x]
    if k == 'rich': return [[p4(p), lexeme(m, p), p[1].cyr_repr, sorted(p[1].grammemes), sorted(p[1].grammemes_cyr)] for p in x]
    if k == 'norm': return [f3(p.normalized) for p in x]
    if k == 'infl':
        r = [p.inflect(set(q[2])) for p in x]
        return [f3(f) if f is not None else None for f in r]
    if k == 'agree':
        r = [p.make_agree_with_number(q[2]) for p in x]
        return [f3(f) if f is not None else None for f in r]
    if k == 'one':          # one operation on one of the results, or on one form of its lexeme
        try:
            p = x[q[2]]
            if q[3] is not False: p = p.lexeme[q[3]]
        except IndexError:
            return 'no such result'
        f = {'lex': lambda: lexeme(m, p), 'norm': lambda: f3(p.normalized), 'infl': lambda: f3(p.inflect(set(q[5])) or ('', '', '')),
             'agree': lambda: f3(p.make_agree_with_number(q[5]) or ('', '', '')), 'cyr': lambda: [p.tag.cyr_repr, sorted(p.tag.grammemes_cyr)],
             'known': lambda: [p.is_known, p.word, str(p.tag), p.normal_form]}
        return f[q[4]]()
    if k == 'isknown': return [p.is_known for p in x]
    if k == 'cyr': return [[p[1].cyr_repr, sorted(p[1].grammemes_cyr)] for p in x]
    if k == 'in': return [q[2] in p[1] for p in x]
    if k == 'inset': return [set(q[2]) in p[1] for p in x]
    if k == 'attrs': return [[str(getattr(p[1], a)) for a in ('POS', 'case', 'number', 'gender', 'animacy', 'tense', 'person')] +
                             [p[1].POS == 'NOUN', p[1].is_productive(), sorted(p[1].updated_grammemes(set(['plur'])))] for p in x]
    if k == 'tag': return [str(t) for t in x]
    if k == 'tagcyr': return [t.cyr_repr for t in x]
    if k == 'tagin': return [q[2] in t for t in x]
    if k == 'iter': return [p4(p) for p in x[0]] + [p4(p) for p in itertools.islice(x[1], 30)]
    if k == 'newtag': return [str(x), x.cyr_repr, sorted(x.grammemes), [str(t) for t in ()]]
    if k == 'rare': return sorted(x)
    if k == 'upd': return sorted(x.updated_grammemes(set(q[2])))
    if k == 'meta': return x[0]
    return x

def answer(f):
    signal.alarm(60)
    try:
        s = json.dumps(f())
    except drive.TookTooLong:
        s = 'took too long'
    except Exception as e:
        s = 'raised %s' % type(e).__name__
    finally:
        signal.alarm(0)
    if len(s) > 400: s = s[:200] + '#' + hashlib.sha1(s.encode('utf8', 'surrogatepass')).hexdigest()
    return s

def attempt(f):
    try:
        return f(), ''
    except Exception as e:
        return None, 'raised %s: %s' % (type(e).__name__, str(e)[:80])

def mutate(m, q):
    """modify everything modifiable that calls return"""
    out = []
    for w in ([q[1]] if len(q) > 1 and isinstance(q[1], type(u'')) else []) + JOB.get('words', [])[:4]:
        for f in (lambda: m.parse(w), lambda: m.tag(w), lambda: m.normal_forms(w)):
            try: out.append(f())
            except Exception: pass
        try:
            for p in m.parse(w):
                out.append(m.get_lexeme(p))
                t = p[1]
                for n in (0, 1, 2, 5): out.append(t.numeral_agreement_grammemes(n))
                out.append(t.updated_grammemes(set(['plur'])))
                out += [t.grammemes, t.grammemes_cyr]
                out += [m.dictionary.get_word_info(w), m.dictionary.build_paradigm_info(0)]
                out.append(m.TagClass.fix_rare_cases(set(['loc2', 'sing'])))
        except Exception: pass
    for o in out:
        if isinstance(o, list): del o[:]
        elif isinstance(o, set):
            o.clear(); o.add('xxxx')

# ------------------------------------------------------------------ races

class Race(object):
    """Two threads; the first is suspended at its k-th line event in the library until the
    second has reached its j-th line event or finished (or is blocked), and so on."""
    def __init__(self, ops, points, patience):
        self.ops, self.points, self.patience = ops, points, patience
        self.cv = threading.Condition()
        self.turn = 0
        self.done = [False, False]
        self.counts = [0, 0]
        self.blocked = [False, False]
        self.lines = [[], []]
        self.record = False

    def tracer(self, i):
        pts = self.points[i]
        def local(frame, event, arg):
            if event == 'line':
                self.counts[i] += 1
                if self.record: self.lines[i].append('%s:%d' % (os.path.basename(frame.f_code.co_filename), frame.f_lineno))
                if self.counts[i] in pts: self.hand_over(i)
            return local
        def glob(frame, event, arg):
            if '/repo/pymorphy2' in frame.f_code.co_filename: return local
            return None
        return glob

    def hand_over(self, i):
        with self.cv:
            o = 1 - i
            if self.done[o]: return
            self.turn = o
            self.cv.notify_all()
            end = time.time() + self.patience
            while self.turn != i and not self.done[o]:
                left = end - time.time()
                if left <= 0:           # the other thread is blocked (by a lock this one holds)
                    self.blocked[o] = True
                    break
                self.cv.wait(left)
            self.turn = i
            self.cv.notify_all()

    def body(self, i, f):
        with self.cv:
            while self.turn != i and not (self.done[1 - i]):
                self.cv.wait(5)
        if self.points[i] or self.record: sys.settrace(self.tracer(i))
        try:
            self.res[i] = f()
        finally:
            sys.settrace(None)
            with self.cv:
                self.done[i] = True
                self.turn = 1 - i
                self.cv.notify_all()

    def run(self):
        self.res = [None, None]
        ts = [threading.Thread(target=self.body, args=(i, self.ops[i])) for i in (0, 1)]
        for t in ts: t.start()
        for t in ts: t.join(60)
        if any(t.is_alive() for t in ts): return None
        return self.res


class State(object):
    def __init__(self):
        self.ms, self.slots, self.evs = [], [], []


def play(h, st, start=0, tmp=None):
    """returns None, or an index and a pickle when the rest has to run in a new process"""
    calls = JOB['calls']
    def rec(k, a=0, q=0, ans='', t=0, op=''):
        st.evs.append({'k': k, 'a': a, 'q': q, 'ans': ans, 't': t, 'op': op})
    for n in range(start, len(h['evs'])):
        ev = h['evs'][n]
        k = ev[0]
        if k == 'create':
            m, e = attempt(lambda: make(ev[1]))
            st.ms.append(m); rec('create', ev[1], 0, e)
        elif k == 'copy':
            src = st.ms[ev[1] - 1]
            m, e = attempt(lambda: pickle.loads(pickle.dumps(src, ev[2] - 1)))
            st.ms.append(m); rec('copy', ev[1], 0, e)
        elif k == 'copyfresh':
            src = st.ms[ev[1] - 1]
            data, e = attempt(lambda: pickle.dumps(src, ev[2] - 1))
            if e:
                st.ms.append(None); rec('copy', ev[1], 0, e)
            else:
                return n, data
        elif k == 'drop':
            st.ms[ev[1] - 1] = None
            gc.collect(); rec('drop', ev[1])
        elif k == 'call':
            m, q = st.ms[ev[1] - 1], calls[ev[2] - 1]
            rec('call', ev[1], ev[2], answer(lambda: phase2(m, phase1(m, q), q)))
        elif k == 'hold':
            m, q = st.ms[ev[1] - 1], calls[ev[2] - 1]
            x, e = attempt(lambda: phase1(m, q))
            st.slots.append((m, x, q, e.split(':')[0])); rec('hold', ev[1], ev[2])
        elif k == 'later':
            m, x, q, e = st.slots[ev[1] - 1]
            rec('later', ev[1], 0, e or answer(lambda: phase2(m, x, q)))
            if q[0] == 'iter':      # an iterator can be looked at only once
                x2, e2 = attempt(lambda: phase1(m, q))
                st.slots[ev[1] - 1] = (m, x2, q, e2.split(':')[0])
        elif k == 'mutate':
            mutate(st.ms[ev[1] - 1], calls[ev[2] - 1]); rec('mutate', ev[1], ev[2])
        elif k == 'race':           # ["race", [opA, opB], [pointsA, pointsB]]
            ops = []
            for t, op in enumerate(ev[1]):
                if op[0] == 'create':
                    rec('begin', op[1], 0, '', t + 1, 'create')
                    ops.append(lambda c=op[1]: attempt(lambda: make(c)))
                else:
                    rec('begin', op[1], op[2], '', t + 1, 'call')
                    m, q = st.ms[op[1] - 1], calls[op[2] - 1]
                    ops.append(lambda m=m, q=q: (None, quiet(lambda: phase2(m, phase1(m, q), q))))
            race = Race(ops, ev[2], JOB.get('patience', 0.1))
            signal.alarm(0)
            race.record = bool(h.get('record'))
            res = race.run()
            h['counts'] = race.lines if race.record else race.counts
            for t, op in enumerate(ev[1]):
                r = (None, 'took too long') if res is None or res[t] is None else res[t]
                if op[0] == 'create': st.ms.append(r[0])
                rec('end', op[1], 0, r[1], t + 1, op[0])
        else:
            raise ValueError(k)
    return None

def quiet(f):
    """answer() without alarms (they only work in the main thread)"""
    try:
        s = json.dumps(f())
    except Exception as e:
        s = 'raised %s' % type(e).__name__
    if len(s) > 400: s = s[:200] + '#' + hashlib.sha1(s.encode('utf8', 'surrogatepass')).hexdigest()
    return s


def in_child(fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 0
        try:
            data = fn().encode('utf8', 'surrogatepass')
            with os.fdopen(w, 'wb') as f: f.write(data)
        except BaseException as e:
            code = 3
            try:
                import traceback; traceback.print_exc()
            except BaseException: pass
        os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f: data = f.read()
    _, st = os.waitpid(pid, 0)
    if st != 0: raise RuntimeError('child failed with status %d' % st)
    return data.decode('utf8', 'surrogatepass')


def refs(h):
    """answers of a new analyzer to each call, every call in a process of its own"""
    def go():
        signal.signal(signal.SIGALRM, drive._alarm)
        m, e = attempt(lambda: make(h['refs']))
        res = []
        for q in JOB['calls'] if not e else []:
            res.append(in_child(lambda: answer(lambda: phase2(m, phase1(m, q), q))))
        return json.dumps({'exc': e, 'answers': res}, ensure_ascii=False)
    return json.loads(in_child(go))


def whole(h, out):
    def go():
        signal.signal(signal.SIGALRM, drive._alarm)
        st = State()
        r = play(h, st)
        if r is not None:           # continue in a new interpreter
            f = '%s.resume.%s' % (out, h['id'])
            with open(f, 'wb') as fp: pickle.dump((JOB, h, r[0], r[1], len(st.ms), st.evs), fp, 2)
            subprocess.check_call([sys.executable, os.path.abspath(__file__), '--resume', f, f + '.out'])
            evs = json.load(io.open(f + '.out', encoding='utf8'))
            os.remove(f); os.remove(f + '.out')
        else:
            evs = st.evs
        return json.dumps({'evs': evs, 'counts': h.get('counts', [])}, ensure_ascii=False)
    return json.loads(in_child(go))


def resume(f, out):
    global JOB
    with open(f, 'rb') as fp:
        JOB, h, n, data, nms, evs = pickle.load(fp)
    signal.signal(signal.SIGALRM, drive._alarm)
    st = State()
    st.ms = [None] * nms
    st.evs = evs
    m, e = attempt(lambda: pickle.loads(data))
    st.ms.append(m)
    st.evs.append({'k': 'copy', 'a': h['evs'][n][1], 'q': 0, 'ans': e, 't': 0, 'op': ''})
    assert play(h, st, n + 1) is None
    with io.open(out, 'w', encoding='utf8') as o: o.write(json.dumps(st.evs, ensure_ascii=False))


def main():
    global JOB
    if sys.argv[1] == '--resume': return resume(sys.argv[2], sys.argv[3])
    job, out, shard, n = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    JOB = json.load(io.open(job, encoding='utf8'))
    import pymorphy2
    assert pymorphy2.__file__.startswith('/repo/'), pymorphy2.__file__
    import pymorphy2.units, dawg_python
    try: import dawg
    except ImportError: pass
    with io.open(out, 'w', encoding='utf8') as o:
        for i, h in enumerate(JOB['histories']):
            if i % n != shard: continue
            r = refs(h) if 'refs' in h else whole(h, out)
            o.write(json.dumps({'id': h['id'], 'obs': r}, ensure_ascii=False) + u'\n')

if __name__ == '__main__':
    main()
