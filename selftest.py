#!/opt/venv/bin/python
"""
Makes sure that what the checks need is here, and that the framework
finds, shrinks and replays a failure in something which is known to fail.
"""
import sys
import os
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pbt import core

core.import_repo()
core.import_hypothesis()
import hypothesis.strategies as st
import pbt.checks   # noqa


def run(case, ctx):
    ctx.nontrivial()
    core.check(sum(case) < 100, 'too big')


s = core.Sub('selftest', 'known to fail', lambda: st.lists(st.integers()),
             run, 100, 100, '')
report = {}
failure = core.run_sub(s, 1, 1000, 60, report)
assert failure is not None and failure['case'] == [100], failure
ctx, again = core.run_case(s, failure['case'])
assert again == 'too big'
s.run = lambda case, ctx: None
assert core.run_sub(s, 1, 100, 60, {}) is None
print(f'{sum(map(len, core.SUBS.values()))} searches for '
      f'{len(core.SUBS)} properties')
