#!/usr/bin/env python3
"""Regenerates /verif/spec/*.json from /repo's current tree. Run by hand (PYTHONHASHSEED=0), after reviewing what changed."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import env, extract, fviews, golden, specio
what = sys.argv[1:] or ['packets', 'functions']
if 'packets' in what:
    c = env.crate('std')
    d = {}
    for n in extract.NAMES + [None]:
        I, views = golden.current(c, n)
        for k, s in views.items():
            d[k] = specio.freeze(s)
    specio.save(golden.SPEC, d)
    print(len(d), os.path.getsize(golden.SPEC))
if 'functions' in what:
    d = {}
    for v in fviews.VIEWS:
        I, s = fviews.summarise(v)
        d[v] = specio.freeze(s)
    specio.save(golden.FSPEC, d)
    print(len(d), os.path.getsize(golden.FSPEC))
