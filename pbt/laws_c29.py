import random

import calls
from common import *

R = Registry("C29")
# (name, argument seed, size, layout, verbose)
sizes = pick((1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 5))
one = st.tuples(pick(calls.NAMES), st.integers(0, 60), sizes,
                st.integers(0, 2), pick((False, False, False, True)))
few = st.tuples(pick(calls.NAMES), st.integers(0, 3), st.integers(1, 2),
                st.just(0), st.just(False))


def need_registry():
    missing = [x for x in ff.__all__ if x not in calls.ALL
               and x not in ("random_CHP_state", "generate_random_bitstring")]
    if missing:
        raise HarnessError("no recipe for %s" % missing)


@R.law(one, 900, 25000, rule="two or more sites", nontrivial=lambda c: c[2] > 1,
       shards=3)
def inputs_untouched(c, note):
    name = c[0]
    a = calls.args_of(*c)
    if name in calls.UPDATES and c[3] == 2:
        return
    before = [calls.snap(x) for x in a]
    kept = list(a)
    world = calls.state_of_world()
    calls.call(name, a) if name in calls.UPDATES else None
    if name not in calls.UPDATES:
        out = calls.fn(name)(*a)
        for k, x in enumerate(kept):
            need(calls.snap(x) == before[k], "%s changes its argument %d", name,
                 k)
        if callable(out):  # evaluating a path leaves its end points alone
            was = [np.array(out(t)) for t in (0, .5, 1)]
            need([calls.snap(x) for x in kept] == before,
                 "the path from %s changes its end points", name)
            for x in kept:  # nor does it read them again later
                if isinstance(x, np.ndarray) and x.flags.writeable:
                    x += 3
            now = [np.array(out(t)) for t in (0, .5, 1)]
            need(maxabs(np.array(was) - np.array(now)) < 1e-12, "the path "
                 "from %s changes when its end points are overwritten", name)
            before = [calls.snap(x) for x in kept]
        if name not in ALIAS:
            calls.canon(out)  # writes to everything that was returned
            need([calls.snap(x) for x in kept] == before,
                 "%s returns one of its arguments, or a view of it", name)
    if name not in calls.SEEDED:
        now = calls.state_of_world()
        need(now[:4] == world[:4], "%s uses the global random state", name)
        need(now[4] == world[4], "%s leaves the print options changed", name)
        need(now[5] == world[5], "%s leaves numpy's error state changed", name)
    note(name)


@R.law(one, 700, 20000, rule="two or more sites", nontrivial=lambda c: c[2] > 1,
       shards=3)
def results_fresh(c, note):
    """calls.canon scribbles over everything it is given"""
    name = c[0]
    r1, t1 = calls.call(name, calls.args_of(*c))
    r2, t2 = calls.call(name, calls.args_of(*c))
    need(calls.equal(r1, r2), "%s: another result after the first one was "
         "written to", name)
    need(t1 == t2, "%s prints something else the second time", name)
    note(name)


@R.law(st.lists(st.one_of(one, few), min_size=2, max_size=10), 250, 6000,
       rule="three or more different calls", nontrivial=lambda c: len(
           {tuple(s) for s in c}) > 2, shards=4)
def history_irrelevant(c, note):
    need_registry()
    alone = {}
    for s in {tuple(s) for s in c}:
        alone[s] = calls.pristine([s])
    for k, s in enumerate(c):
        s = tuple(s)
        want = alone[s]
        if isinstance(want, str):
            raise Violation("%s raises %s" % (s[0], want))
        got = calls.call(s[0], calls.args_of(*s))
        need(calls.equal(want[0][0], got[0]), "call %d, %s, gives another "
             "result than on its own", k, s)
        need(want[0][1] == got[1], "call %d, %s, prints something else", k, s)
    note("%d calls" % len(c))


@R.law(st.tuples(few, one), 300, 8000,
       rule="different functions", nontrivial=lambda c: c[0][0] != c[1][0],
       shards=2)
def same_object_twice(c, note):
    """handing the very same objects in again gives the same again, also when
    another function has worked on them"""
    s, t = (tuple(x) for x in c)
    if s[0] in calls.UPDATES:
        return
    a = calls.args_of(*s)
    r1 = calls.call(s[0], list(a)) if s[0] not in ALIAS else None
    calls.call(t[0], calls.args_of(*t))
    if r1 is not None:
        r2 = calls.call(s[0], list(a))
        need(calls.equal(r1[0], r2[0]), "%s: another result for the same "
             "object", s[0])
    note(s[0])


@R.law(st.tuples(pick(calls.NAMES), st.integers(0, 60), sizes,
                 st.integers(0, 1), st.integers(0, 60)), 500, 12000,
       rule="an argument was overwritten in place with another one",
       nontrivial=lambda c: c[1] != c[4], shards=2)
def overwritten_in_place(c, note):
    """what counts is what an argument holds, not which object it is: the
    arrays, lists and graphs of a call are overwritten with those of another"""
    name, s1, n, lay, s2 = c
    if name in calls.UPDATES:
        return
    a = calls.args_of(name, s1, n, lay)
    b = calls.args_of(name, s2, n, lay)
    if not calls.fits(a, b):
        return
    calls.call(name, list(a)) if name not in ALIAS else calls.fn(name)(*a)
    a = [calls.overwrite(x, y) for x, y in zip(a, b)]
    got = calls.call(name, list(a))
    # the same values in new objects
    want = calls.call(name, calls.args_of(name, s2, n, lay))
    alone = calls.pristine([(name, s2, n, lay, False)])
    if isinstance(alone, str):
        raise Violation("%s raises %s" % (name, alone))
    for w in (want, alone[0]):
        need(calls.equal(w[0], got[0]), "%s: another result than for the same "
             "values in new objects", name)
    note(name)


@st.composite
def twins(draw):
    name = draw(pick(calls.TWINS))
    if name in calls.BIG and draw(st.booleans()):
        return (name, draw(st.integers(0, 60)), calls.BIG[name], 0)
    return (name, draw(st.integers(0, 60)), draw(sizes),
            draw(st.integers(2, 8)))


@R.law(twins(), 260, 6000, rule="the twins differ", shards=3,
       nontrivial=lambda c: calls.snap(calls.args_of(*c[:3])) != calls.snap(
           calls.args_of(*c[:3], 0, False, c[3])))
def twins_told_apart(c, note):
    """arguments that differ in the last digits only, or in the middle of
    large arrays, are not taken for each other"""
    name, seed, n, how = c
    s = (name, seed, n, 0, False, how)
    calls.call(name, calls.args_of(name, seed, n))
    got = calls.call(name, calls.args_of(*s))
    alone = calls.pristine([s])
    if isinstance(alone, str):
        raise Violation("%s raises %s" % (name, alone))
    need(calls.equal(alone[0][0], got[0], 1e-10), "%s: another result after a "
         "call with similar arguments", name)
    note(name if how else name + ", large")


# may hand back (a view of) the array given
ALIAS = ("cast_to_density_matrix", "cast_to_pdf", "clean", "print_custom",
         "generate_pauli_group")
