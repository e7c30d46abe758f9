"""The monitor handed to every scenario: it observes, judges and counts."""
import math
import traceback


class Monitor(object):
    """Collects what a run observed and every failed judgement.

    check()/close()/raises() return whether the judgement held, so a scenario
    may stop early; a failed judgement never aborts the scenario by itself.
    """
    MAX_SAMPLES = 3

    def __init__(self, scratch):
        self.scratch = scratch     # private directory, wiped between cases
        self.events = {}
        self.sites = {}
        self.keys = set()
        self.samples = []
        self.case_violations = []
        self.case_note = None

    # -- observation -------------------------------------------------------
    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0)+n

    def distinct(self, *key):
        self.keys.add(hash(repr(key)))

    def sample(self, text):
        if len(self.samples) < self.MAX_SAMPLES:
            self.samples.append(str(text)[:400])

    def note(self, text):
        """Attach a description of the current input to later violations"""
        self.case_note = text

    # -- judgement ---------------------------------------------------------
    def check(self, cond, site, **detail):
        self.sites[site] = self.sites.get(site, 0)+1
        if not cond:
            self._violate(site, detail)
            return False
        return True

    def fail(self, site, **detail):
        return self.check(False, site, **detail)

    def equal(self, got, want, site, **detail):
        try:
            ok = bool(got == want)
        except Exception:
            ok = False
        return self.check(ok, site, got=got, want=want, **detail)

    def close(self, got, want, site, rel=1e-9, abs_=1e-12, **detail):
        """got and want: numbers, or equally shaped nests of numbers"""
        ok = close(got, want, rel, abs_)
        return self.check(ok, site, got=got, want=want, **detail)

    def raises(self, exc, fn, site, **detail):
        """fn must raise exc (a class or a tuple); any other outcome fails"""
        try:
            out = fn()
        except exc:
            return self.check(True, site)
        except Exception as err:
            return self.check(False, site, want=str(exc),
                              got=repr(err), **detail)
        return self.check(False, site, want=str(exc), returned=repr(out),
                          **detail)

    def quiet(self, fn, site, **detail):
        """fn must not raise; returns (ok, result)"""
        try:
            out = fn()
        except Exception as err:
            self.check(False, site, raised=repr(err),
                       where=tail_of_traceback(), **detail)
            return False, None
        self.check(True, site)
        return True, out

    def _violate(self, site, detail):
        text = {}
        for key, value in detail.items():
            try:
                text[key] = repr(value)[:600]
            except Exception as err:
                text[key] = 'unprintable: '+type(err).__name__
        if self.case_note is not None:
            text['input'] = str(self.case_note)[:1500]
        if len(self.case_violations) < 20:
            self.case_violations.append({'site': site, 'detail': text})


def tail_of_traceback():
    return traceback.format_exc()[-900:]


def is_nan(value):
    return isinstance(value, float) and math.isnan(value)


def close(got, want, rel=1e-9, abs_=1e-12):
    if hasattr(want, 'tolist'):
        want = want.tolist()
    if hasattr(got, 'tolist'):
        got = got.tolist()
    if isinstance(want, (list, tuple)):
        try:
            got = list(got)
        except TypeError:
            return False
        return len(got) == len(want) and \
            all(close(g, w, rel, abs_) for g, w in zip(got, want))
    if isinstance(want, dict):
        return isinstance(got, dict) and set(got) == set(want) and \
            all(close(got[k], want[k], rel, abs_) for k in want)
    try:
        if isinstance(want, complex) or isinstance(got, complex):
            return abs(got-want) <= abs_+rel*max(abs(want), abs(got))
        got, want = float(got), float(want)
    except (TypeError, ValueError):
        return False
    if math.isnan(want) or math.isnan(got):
        return math.isnan(want) and math.isnan(got)
    if math.isinf(want) or math.isinf(got):
        return want == got
    return abs(got-want) <= abs_+rel*max(abs(want), abs(got))
