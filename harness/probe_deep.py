# -*- coding: utf-8 -*-
"""probe_deep.py BASE REPEAT TAIL CALL: one call with a word of BASE * REPEAT + TAIL; prints the outcome.
A process of its own: such words may exhaust the stack or take forever."""
from __future__ import print_function
import sys
sys.path.insert(0, '/repo')
import pymorphy2
assert pymorphy2.__file__.startswith('/repo/')
base, n, tail, call = sys.argv[1:]
dec = lambda s: bytes(bytearray.fromhex(s)).decode('utf8')
word = dec(base) * int(n) + dec(tail) if int(n) > 0 else dec(tail) + dec(base) * -int(n)
m = pymorphy2.MorphAnalyzer()
print('ready'); sys.stdout.flush()
try:
    r = getattr(m, call)(word)
    print('answer %d' % len(r))
except Exception as e:
    print('raised %s' % type(e).__name__)
