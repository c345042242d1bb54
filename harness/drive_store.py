# -*- coding: utf-8 -*-
"""Saving, loading and interrupted conversions.  usage: drive_store.py JOB OUT SHARD N
JOB: {items: [{id, op, ...}]}
 round:   {xml, options, lang, out}                 compile, save, load          (C++ backend only)
 load:    {path}                                    load
 version: {base, version, key, out}                 load with this format_version
 folder:  {xml, options, out, start, overwrite}     convert
 crash:   {xml, options, out, start, fault, old, new, torn}  convert while recording the folder
 loads:   {dirs, old, new}                          load recorded folders
With a corpus, P(t|w) is estimated instead of converting an XML file; then only the answers are looked at, not the metadata."""
from __future__ import print_function
import array, contextlib, hashlib, io, json, os, random, resource, shutil, signal, sys, warnings
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'fakes'))
sys.path.insert(0, HERE)


@contextlib.contextmanager
def quiet():
    with open(os.devnull, 'w') as dn, contextlib.redirect_stdout(dn), contextlib.redirect_stderr(dn): yield


def forked(f, seconds=200):
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            signal.alarm(seconds)
            try: s = json.dumps(f(), ensure_ascii=False)
            except BaseException:
                import traceback
                s = json.dumps({'died': traceback.format_exc()})
            with os.fdopen(w, 'wb') as o: o.write(s.encode('utf8'))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as o: s = o.read().decode('utf8')
    os.waitpid(pid, 0)
    return json.loads(s) if s else {'died': 'killed'}


def plain(d):
    """contents of a loaded dictionary"""
    return {'gramtab': [str(t) for t in d.gramtab], 'suffixes': list(d.suffixes), 'paradigms': [list(p) for p in d.paradigms],
            'words': [[w, list(v)] for w, v in d.words.iteritems()], 'pred': [sorted([w, list(v)] for w, v in p.iteritems()) for p in d.prediction_suffixes_dawgs],
            'pp': list(d.paradigm_prefixes)}


def clean(x):
    """JSON values that TLC can read: no null"""
    if x is None: return ''
    if isinstance(x, dict): return dict((k, clean(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)): return [clean(v) for v in x]
    if isinstance(x, bool): return x
    if isinstance(x, float): return str(x)
    return x


def load(path):
    from pymorphy2.opencorpora_dict.wrapper import Dictionary
    d = Dictionary(path)
    r = plain(d)
    r['grammemes'] = clean(json.load(io.open(os.path.join(path, 'grammemes.json'), encoding='utf8')))
    r['ext'] = json.load(io.open(os.path.join(path, 'gramtab-opencorpora-ext.json'), encoding='utf8'))
    r['meta'] = clean(dict(d.meta))
    return r


def op_round(it):
    from pymorphy2.opencorpora_dict.parse import parse_opencorpora_xml
    from pymorphy2.opencorpora_dict.preprocess import simplify_tags, drop_unsupported_parses
    from pymorphy2.opencorpora_dict.compile import compile_parsed_dict
    from pymorphy2.opencorpora_dict.storage import save_compiled_dict
    try:
        with quiet():
            p = parse_opencorpora_xml(it['xml'])
            simplify_tags(p)
            drop_unsupported_parses(p)
            c = compile_parsed_dict(p, it['options'])
            mem = {'gramtab': [str(t) for t in c.gramtab], 'suffixes': list(c.suffixes), 'paradigms': [list(x) for x in c.paradigms],
                   'words': [[w, list(v)] for w, v in c.words_dawg.iteritems()], 'pred': [sorted([w, list(v)] for w, v in x.iteritems()) for x in c.prediction_suffixes_dawgs],
                   'pp': list(it['options']['paradigm_prefixes']), 'grammemes': clean(p.grammemes), 'lexemes': len(p.lexemes), 'links': len(p.links)}
            os.mkdir(it['out'])
            save_compiled_dict(c, it['out'], source_name=it['source'], language_code=it['lang'])
        with open(os.path.join(it['out'], 'paradigms.array'), 'rb') as f: b = list(f.read())
        return {'exc': '', 'mem': mem, 'bytes': b, 'loaded': load(it['out'])}
    except Exception as e:
        return {'exc': type(e).__name__}


def op_load(it):
    try: return {'exc': '', 'loaded': load(it['path'])}
    except Exception as e: return {'exc': type(e).__name__}


def op_version(it):
    shutil.copytree(it['base'], it['out'])
    fn = os.path.join(it['out'], 'meta.json')
    m = [x for x in json.load(io.open(fn, encoding='utf8')) if x[0] != 'format_version']
    if it['key']: m.insert(1, ['format_version', it['version']])
    text = json.dumps(m, ensure_ascii=False)
    if it.get('raw'): text = text.replace('"%s"' % it['version'], it['version'])
    with io.open(fn, 'w', encoding='utf8') as f: f.write(text)
    import pymorphy2
    try:
        pymorphy2.MorphAnalyzer(it['out'])
        return 'loaded'
    except Exception as e: return type(e).__name__
    finally: shutil.rmtree(it['out'])


def tree(path):
    if os.path.isfile(path): return hashlib.md5(open(path, 'rb').read()).hexdigest()
    if not os.path.isdir(path): return ''
    h = hashlib.md5()
    for d, ds, fs in os.walk(path):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(d, f)
            h.update(('%s %s\n' % (os.path.relpath(p, path), hashlib.md5(open(p, 'rb').read()).hexdigest())).encode('utf8'))
        for x in ds: h.update(x.encode('utf8'))
    return h.hexdigest()


def digest(path, meta=True):
    """digest of everything a dictionary says, '' when it cannot be loaded"""
    def f():
        # the C++ library can ask for any amount of memory when the first bytes of a file are missing
        resource.setrlimit(resource.RLIMIT_AS, (2 << 30, 2 << 30))
        try:
            import pymorphy2
            m = pymorphy2.MorphAnalyzer(path)
            r = load(path)
            r['meta'].pop('compiled_at', None)
            if not meta: r['meta'] = 0
            r['scores'] = [[w + x, [[str(p.tag), p.score] for p in m.parse(w + x)]] for w, _ in r['words'] for x in ('', u'-\u0442\u043e')]
            r['words'].sort()
            r['known'] = [[p.word if hasattr(p, 'word') else p[0], str(p[1]), p[2], p[3]] for p in m.iter_known_word_parses()]
            return hashlib.md5(json.dumps(r, sort_keys=True).encode('utf8')).hexdigest()
        except Exception:
            return ''
    r = forked(f, 60)
    return '' if isinstance(r, dict) else r


def label(path, it):
    d = digest(path, not it.get('corpus'))
    return 'fails' if not d else 'new' if d == it['newd'] else 'old' if d == it['oldd'] else 'other'


def convert(it):
    if it.get('corpus'):
        from pymorphy2.opencorpora_dict.probability import add_conditional_tag_probability
        with quiet(): return add_conditional_tag_probability(it['corpus'], it['out'], it['min'])
    from pymorphy2.opencorpora_dict.compile import convert_to_pymorphy2
    with quiet():
        convert_to_pymorphy2(it['xml'], it['out'], source_name=it.get('source', 'toy'), language_code=it.get('lang', 'ru'), overwrite=it['overwrite'], compile_options=it['options'])


def op_folder(it):
    if it['start'] == 'file': io.open(it['out'], 'w').close()
    elif it['start'] == 'empty': os.mkdir(it['out'])
    elif it['start'] == 'other':
        os.mkdir(it['out'])
        for f in ('README', 'words.dawg', 'meta.json'): io.open(os.path.join(it['out'], f), 'w').write(u'x')
    elif it['start']: shutil.copytree(it['start'], it['out'])
    before = tree(it['out'])
    def f():
        try: convert(it); return ''
        except Exception as e: return type(e).__name__
    exc = forked(f)
    it['newd'], it['oldd'] = digest(it['new']), ''
    return {'exc': exc if not isinstance(exc, dict) else 'died', 'before': before, 'after': tree(it['out']), 'load': label(it['out'], it), 'exists': bool(it['start'])}


def listing(path):
    try: return tuple(sorted((e.name, e.stat().st_size, e.stat().st_mtime_ns, e.inode()) for e in os.scandir(path)))
    except OSError: return None


def op_crash(it):
    if it['start']: shutil.copytree(it['start'], it['out'])
    fault = it.get('fault') or {}
    if fault.get('full') or fault.get('dir') or fault.get('debris'):
        if not os.path.isdir(it['out']): os.mkdir(it['out'])
    f = lambda n: os.path.join(it['out'], n)
    for kind in ('full', 'dir'):
        n = fault.get(kind)
        if n:
            if os.path.exists(f(n)): os.remove(f(n))
            os.symlink('/dev/full', f(n)) if kind == 'full' else os.mkdir(f(n))
    for n in fault.get('debris', []):
        shutil.copyfile(os.path.join(it['debrisfrom'], n[0]), f(n[0]))
        if n[1] is not None:
            with open(f(n[0]), 'r+b') as o: o.truncate(n[1])
    snaps = it['snaps']
    os.mkdir(snaps)
    states, seen = [], [object()]

    def snap():
        l = listing(it['out'])
        if l == seen[0]: return
        seen[0] = l
        d = os.path.join(snaps, '%03d' % len(states))
        if l is None: os.mkdir(d)
        else: shutil.copytree(it['out'], d)
        states.append(d)

    def go():
        n = [0]
        def tr(frame, ev, arg):
            fn = frame.f_code.co_filename
            if '/repo/pymorphy2' in fn:
                if 'storage' in fn or 'utils' in fn or 'probability' in fn: snap()
                else:
                    n[0] += 1
                    if n[0] % 25 == 0: snap()
                return tr
            n[0] += 1
            if n[0] % 200 == 0: snap()
            return tr if 'json' in fn or 'codecs' in fn else None
        if fault.get('fsize') is not None:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (fault['fsize'], fault['fsize']))
        if not fault or fault.get('debris'):
            snap()
            sys.settrace(tr)
        try:
            convert(it)
            end = 'ok'
        except Exception as e: end = type(e).__name__
        sys.settrace(None)
        return {'end': end, 'states': len(states)}
    def whole():
        r = go()
        return r
    r = forked(whole)
    if 'died' in r: r = {'end': 'died ' + r['died'][-300:], 'states': len(os.listdir(snaps))}
    ds = [os.path.join(snaps, '%03d' % i) for i in range(r['states'])]
    if not ds or listing(ds[-1]) != listing(it['out']):
        d = os.path.join(snaps, 'end')
        shutil.copytree(it['out'], d, symlinks=True) if os.path.isdir(it['out']) else os.mkdir(d)
        ds.append(d)
    # one file is cut short
    torn = []
    rng = random.Random(it['id'])
    for a, b in zip(ds, ds[1:]):
        A, B = [dict((e.name, hashlib.md5(open(e.path, 'rb').read()).hexdigest()) for e in os.scandir(x) if e.is_file()) for x in (a, b)]
        ch = [n for n in B if A.get(n) != B[n]]
        if len(ch) != 1 or fault: continue
        n = os.path.getsize(os.path.join(b, ch[0]))
        for k in sorted(set([0, 1, n // 2, n - 1, rng.randrange(n + 1), rng.randrange(n + 1)])):
            if 0 <= k < n and len(torn) < it['torn']:
                d = os.path.join(snaps, 't%03d' % len(torn))
                shutil.copytree(b, d)
                with open(os.path.join(d, ch[0]), 'r+b') as o: o.truncate(k)
                torn.append(d)
    shutil.rmtree(it['out'], ignore_errors=True)
    return {'end': r['end'], 'snaps': ds, 'torn': torn}


def op_loads(it):
    meta = not it.get('corpus')
    it['newd'], it['oldd'] = digest(it['new'], meta), digest(it['old'], meta) if it['old'] else ''
    if not it['newd']: raise ValueError('the reference dictionary cannot be loaded')
    def table(d):
        p = os.path.join(d, 'p_t_given_w.intdawg')
        return hashlib.md5(open(p, 'rb').read()).hexdigest() if os.path.isfile(p) else ''
    files = lambda d: sorted('%s:%d' % (e.name, e.stat(follow_symlinks=False).st_size) for e in os.scandir(d))
    return {'loads': [[label(d, it), len(files(d)), table(d) == table(it['new'])] for d in it['dirs']], 'same': it['newd'] == it['oldd']}


def op_tags(it):
    """tags of the words of a dictionary"""
    import pymorphy2
    m = pymorphy2.MorphAnalyzer(it['path'], probability_estimator_cls=None)
    ws = sorted(set(w for w, _ in m.dictionary.words.iteritems()))
    return [[w, [str(t) for t in m.tag(w)]] for w in ws + [w.title() for w in ws]]


def op_est(it):
    shutil.copytree(it['start'], it['out'])
    convert(it)
    return ''


def main():
    warnings.simplefilter('ignore')
    job, out, shard, n = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    import pymorphy2, pymorphy2.opencorpora_dict.storage, pymorphy2.opencorpora_dict.wrapper, pymorphy2.opencorpora_dict.compile
    assert pymorphy2.__file__.startswith('/repo/'), pymorphy2.__file__
    J = json.load(io.open(job, encoding='utf8'))
    with io.open(out, 'w', encoding='utf8') as o:
        for i, it in enumerate(J['items']):
            if i % n != shard: continue
            f = globals()['op_' + it['op']]
            o.write(json.dumps({'id': it['id'], 'obs': f(it)}, ensure_ascii=False) + u'\n')

if __name__ == '__main__':
    main()
