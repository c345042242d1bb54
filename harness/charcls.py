# -*- coding: utf-8 -*-
"""Character classes from the Unicode database, as the specification wants them."""
import unicodedata

def classes(token):
    res = {}
    for ch in set(token):
        c = ''
        cat = unicodedata.category(ch)
        if cat[0] == 'P': c += 'P'
        if ch.isspace(): c += 'S'
        if ch.isalpha(): c += 'A'
        if 'LATIN' in unicodedata.name(ch, ''): c += 'L'
        if cat == 'Nd': c += 'D'
        if cat[0] in 'LN' or ch.isalnum(): c += 'W'
        if c: res[ch] = c
    return res
