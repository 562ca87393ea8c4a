"""Runs contract cases and collects their obligations."""
import os, time, traceback
from .interp import explore, PyRaise, Unsupported, TooManyPaths, PathEnd
from .terms import STATS, feasible, TIMEOUTS
from . import terms
import z3


class Deadline(Unsupported):
    pass


class CaseResult:
    def __init__(self, name):
        self.name = name
        self.obl = []
        self.paths = 0
        self.status = 'proved'
        self.detail = ''
        self.functions = set()
        self.contracts = set()
        self.vacuous = False
        self.live = 0
        self.rest = []           # paths left to others
        self.time = 0.0

    def as_dict(self):
        return dict(case=self.name, status=self.status, paths=self.paths, obligations=len(self.obl),
                    discharged=sum(o['status'] == 'proved' for o in self.obl), detail=self.detail,
                    seconds=round(self.time, 2))


def run_case(make_world, name, body, budget=120.0, queue=None, share=None):
    """body(it) sets up arguments, executes the code and states obligations with it.oblige.
    With `share` the paths that are left after that many seconds are returned in `rest`; the results of all parts are
    put together by `merge`."""
    res = CaseResult(name)
    t0 = time.time()
    try:
        w = make_world()
        w.executed, w.used_contracts = set(), set()
        part = queue is not None
        queue = [[]] if queue is None else [list(q) for q in queue]
        for it in explore(w, body, queue=queue):
            res.paths += 1
            for o in it.obl:
                o['case'] = name
                o['path'] = ''.join(str(x) for x in it.taken)
            res.obl += it.obl
            if not res.live and feasible(it.th, it.pc):
                res.live = 1
            if share is not None and queue and time.time() - t0 > share:
                res.rest = list(queue)
                break
            if time.time() - t0 > budget:
                raise Deadline('case budget of %gs used up' % budget)
        res.functions, res.contracts = w.executed, w.used_contracts
        if not part and not res.rest:
            grounded(res)
    except Unsupported as e:
        res.status, res.detail = 'unsupported', str(e)
    except PyRaise as e:
        res.status, res.detail = 'unsupported', 'unexpected %r while setting up' % (e,)
    except RecursionError:
        res.status, res.detail = 'unsupported', 'recursion'
    except z3.Z3Exception as e:
        res.status, res.detail = 'unsupported', 'solver: %s' % e
    except (KeyError, AttributeError, TypeError, ValueError, IndexError, AssertionError, NotImplementedError) as e:
        # the code no longer has the form the contract was written for
        at = ['%s:%d' % (os.path.basename(f.filename), f.lineno) for f in traceback.extract_tb(e.__traceback__)]
        res.status, res.detail = 'unsupported', '%s: %s, at %s' % (type(e).__name__, e, ' < '.join(at[:-7:-1]))
    verdict(res)
    res.time = time.time() - t0
    return res


def grounded(res):
    if not res.obl:
        res.status, res.detail = 'error', 'no obligation was generated'
    elif not res.live:
        res.status, res.detail = 'error', 'the precondition is contradictory'


def verdict(res):
    if res.status == 'proved':
        st = {o['status'] for o in res.obl if o['klass'] == 'property'}
        if 'refuted' in st:
            res.status = 'refuted'
        elif 'unknown' in st:
            res.status = 'unknown'
        elif any(o['status'] != 'proved' for o in res.obl):
            res.status = 'weaker'        # an auxiliary tightness obligation was not discharged
    else:
        if any(o['status'] == 'refuted' and o['klass'] == 'property' for o in res.obl):
            res.status = 'refuted'


def merge(a, b):
    """a with the results of another part of the same case"""
    a.obl += b.obl
    a.paths += b.paths
    a.live = a.live or b.live
    a.functions, a.contracts = set(a.functions) | set(b.functions), set(a.contracts) | set(b.contracts)
    a.time += b.time
    rank = ['proved', 'weaker', 'unknown', 'error', 'unsupported', 'refuted']
    if rank.index(b.status) > rank.index(a.status):
        a.status, a.detail = b.status, b.detail
    return a
