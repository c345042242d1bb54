# -*- coding: utf-8 -*-
"""Selection of dictionary and language.  usage: drive_sel.py JOB OUT SHARD N
JOB: {dir, dicts: {name: path}, runs: [{id, ops: [[op, x, y] | ['create', args]]}]}
Every run is a forked child.  Packages are folders that are added to sys.path and removed from it;
the packages installed in the sandbox itself are hidden after the library has been imported."""
from __future__ import print_function
import importlib, io, json, os, sys, warnings
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import drive

NONE = '-'
JOB = {}


def package(lang, loc):
    """the folder of a package that provides dictionary loc for lang"""
    d = os.path.join(JOB['dir'], 'pkg_%s_%s' % (lang.replace('-', '_'), loc))
    if not os.path.isdir(d):
        t = d + '.%d' % os.getpid()
        name = 'pymorphy2_dicts' if lang == 'ru-old' else 'vp_dicts_%s_%s' % (lang, loc)
        os.makedirs(os.path.join(t, name))
        with io.open(os.path.join(t, name, '__init__.py'), 'w') as f:
            f.write(u'def get_path():\n    return %r\n' % JOB['dicts'][loc])
        if lang != 'ru-old':
            i = os.path.join(t, name + '-1.0.dist-info')
            os.makedirs(i)
            for fn, text in (('METADATA', u'Metadata-Version: 2.1\nName: %s\nVersion: 1.0\n' % name), ('RECORD', u''), ('INSTALLER', u'vp\n'), ('WHEEL', u'Wheel-Version: 1.0\nRoot-Is-Purelib: true\nTag: py3-none-any\n'),
                             ('entry_points.txt', u'[pymorphy2_dicts]\n%s = %s\n' % (lang, name)), ('top_level.txt', name + u'\n')):
                with io.open(os.path.join(i, fn), 'w') as f: f.write(fn == 'x' and u'' or text)
        try: os.rename(t, d)
        except OSError: pass
    return d


def reach(m, w):
    return bool(m.word_is_known(w))


def look(m):
    import hist_classes
    locs = [l for l in sorted(JOB['dicts']) if m.word_is_known(u'слово' + l, strict=True)]
    ini = lambda ch: any('Init' in t for t in m.tag(ch))
    ru, uk = ini(u'Э'), ini(u'І')
    # a token with a particle or known prefix of one language only
    units = {(True, False): 'ru', (False, True): 'uk', (False, False): 'own'}.get((ru, uk), '?')
    s = (reach(m, u'тест'), reach(m, u'гава'), reach(m, u'зазо'))
    subst = {(True, False, False): 'ru', (False, True, False): 'uk', (False, False, True): 'own', (False, False, False): 'none'}.get(s, '?')
    ps = m.parse(u'дуо')
    sc = sorted(p[3] for p in ps)
    est = 'off' if sc == [1.0, 1.0] else 'half' if sc == [0.5, 0.5] else 'table' if [round(x, 6) for x in sc] == [0.25, 0.75] else '? %r' % sc
    rt = type(ps[0]).__name__
    return {'dict': ','.join(locs) or '?', 'lang': m.lang if isinstance(m.lang, type(u'')) else repr(m.lang), 'units': units, 'subst': subst, 'est': est, 'rt': rt}


EMPTY = {'dict': NONE, 'lang': NONE, 'units': NONE, 'subst': NONE, 'est': NONE, 'rt': NONE}

def create(a):
    import pymorphy2, hist_classes
    from pymorphy2 import units as U
    from pymorphy2.analyzer import ProbabilityEstimator
    kw = {}
    if a['path'] != NONE: kw['path'] = JOB['dicts'][a['path']]
    if a['lang'] != NONE: kw['lang'] = a['lang']
    if a['units'] == 'own': kw['units'] = [[U.DictionaryAnalyzer()], [U.UnknAnalyzer()]]
    elif a['units'] != NONE: kw['units'] = getattr(pymorphy2.lang, a['units']).DEFAULT_UNITS
    if a['subst'] != 'auto': kw['char_substitutes'] = {'none': None, 'empty': {}, 'own': {u'а': u'о'}, 'ru': {u'е': u'ё'}, 'uk': {u'г': u'ґ'}}[a['subst']]
    if a['est'] != 'auto': kw['probability_estimator_cls'] = {'none': None, 'table': ProbabilityEstimator, 'half': hist_classes.HalfEstimator}[a['est']]
    if a['rt'] != 'Parse': kw['result_type'] = {'tuple': None, 'MyParse': hist_classes.MyParse}[a['rt']]
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        try:
            m, exc = pymorphy2.MorphAnalyzer(**kw), ''
        except Exception as e:
            m, exc = None, type(e).__name__
    n = len(set(str(w.message) for w in ws if w.category is UserWarning and 'pkg_resources' not in w.filename))
    r = dict(EMPTY, exc=exc, warns=n)
    if m is not None: r.update(look(m))
    return r


def play(run):
    import pymorphy2.analyzer as A
    base = [p for p in sys.path if 'site-packages' not in p]
    inst = {}
    os.environ.pop('PYMORPHY2_DICT_PATH', None)
    def paths():
        sys.path[:] = base + [package(l, inst[l]) for l in sorted(inst)]
        for k in [k for k in sys.modules if k.startswith('vp_dicts') or k == 'pymorphy2_dicts' or k.startswith('pymorphy2_dicts_')]: del sys.modules[k]
        importlib.invalidate_caches()
    paths()
    evs = []
    for op in run['ops']:
        e = {'op': op[0], 'x': '', 'y': '', 'a': {}, 'obs': ''}
        if op[0] == 'install':
            inst[op[1]] = op[2]; paths(); e.update(x=op[1], y=op[2])
        elif op[0] == 'remove':
            inst.pop(op[1], None); paths(); e.update(x=op[1])
        elif op[0] == 'env':
            e.update(x=op[1])
            if op[1] == NONE: os.environ.pop('PYMORPHY2_DICT_PATH', None)
            else: os.environ['PYMORPHY2_DICT_PATH'] = JOB['dicts'][op[1]]
        elif op[0] == 'find':
            e.update(x=op[1])
            try:
                p = A.lang_dict_path(op[1])
                e['obs'] = next((l for l, q in JOB['dicts'].items() if q == p), '?')
            except ValueError:
                e['obs'] = NONE
            except Exception as x:
                e['obs'] = type(x).__name__
        elif op[0] == 'create':
            a = dict(op[1])
            e['obs'] = create(a)
            if a['subst'] == 'empty': a['subst'] = 'none'
            if a['rt'] == 'tuple': a['rt'] = 'tuple'
            e['a'] = a
        evs.append(e)
    return {'evs': evs}


def main():
    global JOB
    job, out, shard, n = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    JOB = json.load(io.open(job, encoding='utf8'))
    warnings.simplefilter('ignore')
    import pymorphy2
    assert pymorphy2.__file__.startswith('/repo/'), pymorphy2.__file__
    import pymorphy2.units, pymorphy2.analyzer, dawg_python, pkg_resources, hist_classes
    list(pkg_resources.WorkingSet().iter_entry_points('pymorphy2_dicts'))
    try: import dawg
    except ImportError: pass
    with io.open(out, 'w', encoding='utf8') as o:
        for i, h in enumerate(JOB['runs']):
            if i % n != shard: continue
            r, w = os.pipe()
            pid = os.fork()
            if not pid:
                try:
                    try: s = json.dumps(play(h), ensure_ascii=False)
                    except Exception:
                        import traceback
                        s = json.dumps({'died': traceback.format_exc()})
                    with os.fdopen(w, 'wb') as f: f.write(s.encode('utf8'))
                finally:
                    os._exit(0)
            os.close(w)
            with os.fdopen(r, 'rb') as f: s = f.read().decode('utf8')
            os.waitpid(pid, 0)
            o.write(json.dumps({'id': h['id'], 'obs': json.loads(s) if s else {'died': 'no record'}}, ensure_ascii=False) + u'\n')

if __name__ == '__main__':
    main()
