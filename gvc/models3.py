"""Assumed contracts of time, context, os, crypto, compression and network packages."""
import z3
from .models import model, imodel, ok, ghost, MODELS, IMODELS, Z0, F0, INT, BOOL, newerr, GHOSTS
from .models2 import seqfacts, seqarg, nilerr, nn, dynref, globerr, LIBF, lib
from .theory import SliceV, StructV, ArrayV, Closure, Loc, TupleV, Unsupported, is_num, LENMAX

# ------------------------------------------------------------------ time
ghost("chan", "timer", BOOL, F0)
ghost("chan", "dur", INT, Z0)


def newtimer(E, st, dur):
    ch = E.alloc(st)
    for g, v in (("cap", z3.IntVal(1)), ("closed", z3.BoolVal(False)), ("cnt", z3.IntVal(0)), ("timer", z3.BoolVal(True)), ("dur", dur)):
        E.gset(st, "chan", g, ch, v)
    return ch


@model("time.After", "time.Tick")
def time_after(E, st, a, d):
    return ok(st, newtimer(E, st, a[0]))


@model("time.NewTimer", "time.NewTicker")
def time_newtimer(E, st, a, d):
    T = E.prog.named("time.Timer" if d["name"].endswith("Timer") else "time.Ticker")
    r = E.new_object(st, T)
    ch = newtimer(E, st, a[0])
    ft = dict(T.u().fields)["C"]
    E.store(st, ft, Loc("field", r, ft, "C", T), ch)
    E.event(st, ("timer", r, ch, a[0]))
    return ok(st, r)


@model("(*time.Timer).Stop", "(*time.Timer).Reset")
def time_stop(E, st, a, d):
    return ok(st, E.th.fresh("stopped", z3.BoolSort())) + nn(E, st, a[0])


@model("(*time.Ticker).Stop")
def ticker_stop(E, st, a, d):
    return ok(st) + nn(E, st, a[0])


@model("time.Sleep")
def time_sleep(E, st, a, d):
    E.event(st, ("sleep", a[0]))
    return ok(st)
