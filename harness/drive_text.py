# -*- coding: utf-8 -*-
"""Tokenizer and capitalization.  usage: drive_text.py JOB OUT SHARD N
JOB: ndjson {id, op: 'tok'|'case', w, ex}.  The record also holds the character tables of the runtime."""
from __future__ import print_function
import io, json, os, sys, unicodedata
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

def tok_class(ch):
    c = unicodedata.category(ch)
    if c[0] in 'LN': return 'W'
    # white space as Unicode (and the runtime) defines it
    if unicodedata.bidirectional(ch) in ('WS', 'B', 'S') or c == 'Zs': return 'S'
    return ''

def case_row(ch):
    kind = 'l' if ch.islower() else 'u' if ch.isupper() else 't' if ch.istitle() else ''
    row = [ch.lower(), ch.upper(), ch.title(), ch.casefold(), kind]
    return row if row != [ch, ch, ch, ch, ''] else None

def main():
    job, out, shard, n = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    import pymorphy2
    assert pymorphy2.__file__.startswith('/repo/'), pymorphy2.__file__
    from pymorphy2.tokenizers import simple_word_tokenize
    from pymorphy2.shapes import restore_capitalization
    with io.open(job, encoding='utf8') as f, io.open(out, 'w', encoding='utf8') as o:
        for i, line in enumerate(f):
            if i % n != shard: continue
            c = json.loads(line)
            exc = ''
            if c['op'] == 'tok':
                r = []
                try: r = [str(t) for t in simple_word_tokenize(c['w'])]
                except Exception as e: exc = type(e).__name__
                obs = {'toks': r, 'exc': exc, 'cls': dict((ch, tok_class(ch)) for ch in set(c['w']) if tok_class(ch))}
            else:
                r = ''
                try: r = str(restore_capitalization(c['w'], c['ex']))
                except Exception as e: exc = type(e).__name__
                m = {}
                todo = set(c['w'] + c['ex'] + r)
                while todo:
                    ch = todo.pop()
                    row = case_row(ch)
                    if row and ch not in m:
                        m[ch] = row
                        todo |= set(u''.join(row[:4]))
                # characters whose case mappings are not inverse to each other up to case folding
                odd = any(len(set(x.casefold() for x in row[:3])) > 1 for row in m.values())
                obs = {'r': r, 'exc': exc, 'm': m, 'odd': odd}
            o.write(json.dumps({'id': c['id'], 'obs': obs}, ensure_ascii=False) + u'\n')

if __name__ == '__main__':
    main()
