"""Shared reading of the event history of a sequence of simulated processes."""
import re
import snapfmt
from core import Violation


def tclose(a, b, rel=1e-10):
    return abs(a - b) <= rel * max(abs(a), abs(b), 1e-30)


class Lineage:
    """what the directory should be restartable from, derived from the events of the processes that ran in it.
    mark = event whose state was last completely recorded; last = last event seen (its state may have been half recorded)"""
    def __init__(self):
        self.mark = None
        self.last = None
        self.marks = []

    def absorb(self, r, rank=0):
        prev = None
        self.last = None
        for e in r.events:
            if e.rank != rank:
                continue
            if prev is not None and e.code in (3, 5) and (e.snap != prev.snap or e.nlr != prev.nlr):
                self.mark = e
                self.marks.append(e)
            prev = e
            self.last = e

    def candidates(self):
        c = []
        if self.mark is not None:
            c.append(("the last recorded state", self.mark))
        if self.last is not None and self.last.code != 1 and (self.mark is None or self.last.step != self.mark.step or self.last.code == 2):
            c.append(("the state being recorded when the process ended", self.last))
        return c


def exactable(scen, form):
    """the digest of the loaded state equals that of the saved one bit for bit: binary format, no unit conversion, one particle type"""
    return form == "su" and scen["p"].get("dimensionless") == 1 and not scen["fam"].startswith("dust")


def same_state(a, b, exact, tol=1e-10):
    if a.step != b.step or not tclose(a.t, b.t, tol):
        return False
    if exact and a.dead == 0 and b.dead == 0 and a.dig != b.dig:
        return False
    return a.Nh - a.dead == b.Nh - b.dead and a.Ns == b.Ns


def show(e):
    return "step %d t=%.9g snap %d N=%d+%d" % (e.step, e.t, e.snap, e.Nh - e.dead, e.Ns)


SNAP = re.compile(r"^RUN\.(su|sf|column)\.(\d{5})$")


def numbered(tree, form):
    out = {}
    for k in tree:
        m = SNAP.match(k)
        if m and m.group(1) == form:
            out[int(m.group(2))] = k
    return out


def check_series(tree, form, upto, what, left=()):
    """snapshot files 1..upto are all there, nothing beyond (save what an earlier process left), and each is one complete file"""
    have = {n: k for n, k in numbered(tree, form).items() if n <= upto or n not in left}
    if sorted(have) != list(range(1, upto + 1)):
        raise Violation("series", "%s: snapshot files %s, expected 1..%d" % (what, sorted(have), upto))
    for k in have.values():
        try:
            snapfmt.read(tree[k], form)
        except snapfmt.BadSnapshot as e:
            raise Violation("series-incomplete", "%s: %s is not a complete snapshot: %s" % (what, k, e))


def record_of(tree):
    b = tree.get("RUN.restart")
    if b is None:
        return None
    t = b.decode("latin1").split()
    return t


def check_record(tree, what):
    """when a restart record exists it names a complete snapshot"""
    t = record_of(tree)
    if t is None:
        return None
    if len(t) != 2:
        raise Violation("record", "%s: the restart record is not complete: %r" % (what, tree["RUN.restart"][:80]))
    if t[1] not in tree:
        raise Violation("record", "%s: the restart record names %s, which does not exist" % (what, t[1]))
    try:
        s = snapfmt.read(tree[t[1]], t[0])
    except snapfmt.BadSnapshot as e:
        raise Violation("record", "%s: the restart record names %s, which is not a complete snapshot: %s" % (what, t[1], e))
    return s
