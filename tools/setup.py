#!/usr/bin/env python3
"""compiles the Java overrides and checks, with TLC, that they satisfy the definitions in specs/Rat.tla"""
import os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'harness'))
import tlc
tlc.classes()
r = tlc.run('RatLaws', cfg='RatLaws.cfg')
print('RatLaws: %d states, %s' % (r.distinct, 'ok' if r.ok else r.out[-2000:]))
sys.exit(0 if r.ok else 1)
