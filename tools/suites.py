"""The suites that decide each property."""
import itertools
import glob, importlib, os, sys


def lts(name, module, bin, consts, **kw):
    return {"kind": "lts", "name": name, "module": module, "bin": bin, "consts": consts, **kw}


def trace(name, module, bin, consts, params, runs, steps, **kw):
    return {"kind": "trace", "name": name, "module": module, "bin": bin, "consts": consts, "params": params,
            "runs": runs, "steps": steps, **kw}


def tlc(name, module, consts, **kw):
    return {"kind": "tlc", "name": name, "module": module, "consts": consts, **kw}


PROPS = {}


def prop(pid, **kw):
    def deco(f):
        PROPS[pid] = {"suites": f, **kw}
        return f
    return deco


def known_findings(pid):
    return []


# ------------------------------------------------------------------ large numbers
def bulk(name, part, ns, q, runs=8, steps=45):
    return trace(name, "Bulk", "bulk", {"Cfgs": "{}", "Ms": "{}"}, {"part": part, "ns": ns}, runs, steps, chunks=1 if q else 5)


HUGE = [1, 2, 17, 255, 256, 257, 1000, 1024, 1025, 5000, 65535, 65536, 65537, 100000]
LARGE = [1, 2, 15, 16, 17, 33, 64, 65, 100, 128, 129, 255, 256, 257, 300]


def bulk_model(part):
    return tlc("bulk-model-" + part, "Bulk", {"Cfgs": '{[part |-> "%s", n |-> n, how |-> 0] : n \\in 1..4}' % part, "Ms": "0..4" if part == "allow" else "1..4"})


# ------------------------------------------------------------------ stacks of limits
def layer(t, a=0, b=0):
    return '[t|->"%s", a|->%d, b|->%d]' % (t, a, b)


CL, CL2, RT, SH, TO, RY, BF = layer("climit", 1), layer("climit", 2), layer("rate", 1, 250), layer("shed"), layer("timeout", 100), layer("retry", 1), layer("buffer", 1)


def stacks(auto, *ls, via=(0,)):
    return "{%s}" % ", ".join("[auto|->%s, via|->%d, ls|-><<%s>>, nh|->NH, nk|->NK]" % (a, v, ", ".join(l)) for l in ls for a in auto for v in via)


def built(name, nh, nk, bounds, modes, rs, **kw):
    """buffers as the layer, the builder and the constructor make them"""
    return lts(name, "Stack", "stack", {"NH": nh, "NK": nk, "Modes": modes, "Rs": rs, "Advs": "{}",
               "Cfgs": stacks(["TRUE"], *[[layer("buffer", b)] for b in bounds], via=range(3))}, props=["CalledReady"], **kw)


# ------------------------------------------------------------------ concurrency limit
@prop("P04")
def p04(tier):
    q = tier == "quick"
    cf = '{[max|->m, kind|->k] : m \\in %s, k \\in %s}'
    out = [
        lts("cl-share", "ConcurrencyLimit", "limit", {
            "NH": 2, "NC": 2, "Modes": "{}", "Rs": '{"ok"}',
            "Cfgs": cf % ("{0,1,2}" if not q else "{1}", '{"svc","layer","global","builder"}')}, props=["CallNeedsSlot"]),
        lts("cl-inner", "ConcurrencyLimit", "limit", {
            "NH": 2, "NC": 2, "Modes": '{"ready","pending","err1"}', "Rs": '{"ok","err"}',
            "Cfgs": cf % ("{1}", '{"svc"}')}, props=["CallNeedsSlot"]),
        lts("cl-panic", "ConcurrencyLimit", "limit", {
            "NH": 2, "NC": 1 if q else 2, "Modes": "{}", "Rs": '{"ok","panic"}',
            "Cfgs": cf % ("{1}" if q else "{1,2}", '{"svc","global"}')}, props=["CallNeedsSlot"]),
        trace("cl-big", "ConcurrencyLimit", "limit", {"NH": 20, "NC": 100, "Modes": "{}", "Rs": "{}", "Cfgs": "{}"}, {"nh": 20, "nc": 100}, 10, 500, props=["CallNeedsSlot"], chunks=1 if q else 10),
        trace("cl-random", "ConcurrencyLimit", "limit", {
            "NH": 8, "NC": 12, "Modes": "{}", "Rs": "{}", "Cfgs": "{}"},
            {"nh": 8, "nc": 12}, 120 if q else 400, 150 if q else 400, props=["CallNeedsSlot"], chunks=1 if q else 20),
        cut("cl-cut", "ConcurrencyLimit", "limit", {"NH": 5, "NC": 6, "Modes": "{}", "Rs": "{}", "Cfgs": "{}"}, {"nh": 5, "nc": 6}, 30, 100, chunks=1 if q else 50),
        bulk("cl-bulk", "climit", HUGE, q),
        bulk_model("climit"),
    ]
    return out


# ------------------------------------------------------------------ buffer
BUF = "{[bound|->b] : b \\in %s}"
BUFBIG = {"NH": 6, "NK": 400, "Modes": "{}", "Rs": "{}", "Cfgs": "{}", "Kill": "TRUE"}
BUFPROPS = ["NoCallAfterFailure", "CallsAreQueued", "Fifo"]


RACEPROPS = ["RNoCallAfterFailure", "RFifo", "RCancelled"]


def race(name, params, runs, steps, **kw):
    """The worker's polls run on another thread; whenever it calls or wakes something, others use the buffer."""
    return trace(name, "BufferRace", "buffer", dict(BUFBIG, NH=params["nh"], NK=params["nk"]), dict(params, race=True), runs, steps,
                 component="Buffer", steps_inside=True, invs=["RInv"], props=RACEPROPS, **kw)


def cut(name, module, comp, consts, params, runs, steps, **kw):
    """Two operations at once, one of them stopped after some machine instruction."""
    return trace(name, module, comp, consts, dict(params, cut=True), runs, steps, procs=8, **kw)


def buf_cut(name, params, runs, steps, **kw):
    """Two operations at once, one of them stopped after some machine instruction."""
    return race(name, dict(params, cut=True), runs, steps, procs=8, **kw)


@prop("P01")
def p01(tier):
    q = tier == "quick"
    return [
        lts("buf-flow", "Buffer", "buffer", {
            "NH": 2, "NK": 2 if q else 3, "Cfgs": BUF % ("{1}" if q else "{1,2}"), "Modes": '{"ready","pending"}', "Rs": '{"ok"}', "Kill": "FALSE"}, props=BUFPROPS,
            secs=30 if q else 900),
        lts("buf-answers", "Buffer", "buffer", {
            "NH": 1, "NK": 2 if q else 3, "Cfgs": BUF % "{2,3}", "Modes": '{"ready","pending"}', "Rs": '{"ok","err"}', "Kill": "FALSE"}, props=BUFPROPS, secs=30 if q else 900),
        built("buf-built", 1 if q else 2, 2, [1, 2, 3], '{"ready","pending"}', '{"ok"}', secs=8 if q else 600),
        race("buf-race", {"nh": 3, "nk": 60, "hi": 4, "faults": 0}, 80, 60, chunks=1 if q else 30),
        buf_cut("buf-cut", {"nh": 3, "nk": 60, "hi": 4, "faults": 0}, 15, 80, chunks=1 if q else 50),
        trace("buf-random", "Buffer", "buffer", BUFBIG, {"nh": 6, "nk": 400, "faults": 0}, 100 if q else 300, 150 if q else 300, props=BUFPROPS, chunks=1 if q else 20),
        bulk("buf-bulk", "buffer", HUGE, q),
        bulk_model("buffer"),
    ]


@prop("P02")
def p02(tier):
    q = tier == "quick"
    return [
        lts("buf-slots", "Buffer", "buffer", {
            "NH": 3, "NK": 1 if q else 2, "Cfgs": BUF % ("{1}" if q else "{1,2}"), "Modes": '{}', "Rs": '{}', "Kill": "FALSE"}, props=BUFPROPS, secs=30 if q else 900),
        lts("buf-bound", "Buffer", "buffer", {
            "NH": 1 if q else 2, "NK": 3 if q else 4, "Cfgs": BUF % "{1,2,3}", "Modes": '{"pending"}', "Rs": '{}', "Kill": "FALSE"}, props=BUFPROPS, secs=30 if q else 900),
        built("buf-built-slots", 4, 1, [1, 2, 3], '{}' if q else '{"pending"}', '{}', secs=20 if q else 600),
        race("buf-race-slots", {"nh": 5, "nk": 60, "hi": 2, "faults": 0}, 80, 60, chunks=1 if q else 30),
        buf_cut("buf-cut-slots", {"nh": 5, "nk": 60, "hi": 2, "faults": 0}, 15, 80, chunks=1 if q else 50),
        trace("buf-capacity", "Buffer", "buffer", BUFBIG, {"nh": 6, "nk": 400, "faults": 0, "hi": 3}, 100 if q else 300, 150 if q else 300, props=BUFPROPS, chunks=1 if q else 20),
        bulk("buf-bulk-slots", "buffer", HUGE, q),
        bulk_model("buffer"),
    ]


@prop("P03")
def p03(tier):
    q = tier == "quick"
    return [
        lts("buf-err", "Buffer", "buffer", {
            "NH": 2, "NK": 2, "Cfgs": BUF % ("{1}" if q else "{1,2}"), "Modes": '{"pending","err1"}' if q else '{"ready","pending","err1","panic"}',
            "Rs": '{"ok"}', "Kill": "FALSE" if q else "TRUE"}, props=BUFPROPS, secs=30 if q else 900),
        lts("buf-kill", "Buffer", "buffer", {
            "NH": 2, "NK": 2, "Cfgs": BUF % "{1}", "Modes": '{"panic"}', "Rs": '{"err"}' if q else '{"ok","err"}',
            "Kill": "TRUE"}, props=BUFPROPS, secs=30 if q else 900),
        built("buf-built-err", 2, 1 if q else 2, [1] if q else [1, 2], '{"ready","pending","err1"}', '{}', secs=20 if q else 600),
        tlc("buf-race-spec", "BufferRace", {"NH": 2, "NK": 1 if q else 2, "Cfgs": BUF % ("{1}" if q else "{1,2}"), "Modes": '{"pending","err1"}', "Rs": "{}", "Kill": "FALSE" if q else "TRUE"},
            spec="RSpec", tlc_timeout=600 if q else 7200, invs=["RInv"], props=RACEPROPS),
        race("buf-race-faults", {"nh": 4, "nk": 60, "hi": 3, "faults": 3}, 100, 60, chunks=1 if q else 30),
        buf_cut("buf-cut-faults", {"nh": 4, "nk": 60, "hi": 3, "faults": 3}, 15, 80, chunks=1 if q else 50),
        trace("buf-faults", "Buffer", "buffer", BUFBIG, {"nh": 6, "nk": 400, "faults": 3}, 100 if q else 300, 150 if q else 300, props=BUFPROPS, chunks=1 if q else 20),
    ]


# ------------------------------------------------------------------ rate limit, load shed, timeout
@prop("P05")
def p05(tier):
    q = tier == "quick"
    cf = '{[u|->1, num|->n, per|->p, kind|->k] : n \\in %s, p \\in %s, k \\in {"new","layer","builder"}}'
    return [
        lts("rate-lts", "RateLimit", "limit", {"Cfgs": cf % (("{1,2}", "{1,2,3}") if q else ("{1,2,3}", "{1,2,3,4}")),
            "Modes": '{"ready","pending","err1"}', "Advs": "{1,2}" if q else "{1,2,3}", "MaxK": 1}),
        lts("rate-fine", "RateLimit", "limit", {"Cfgs": '{[u|->4, num|->n, per|->p, kind|->"new"] : n \\in {1,2}, p \\in {1,2,4,6}}',
            "Modes": '{}', "Advs": "{1,3}" if q else "{1,2,3,5}", "MaxK": 1}, secs=5 if q else 60),
        trace("rate-random", "RateLimit", "limit", {"Cfgs": "{}", "Modes": "{}", "Advs": "{}", "MaxK": 1}, {}, 200, 120, chunks=1 if q else 30),
        bulk("rate-bulk", "rate", HUGE, q),
        bulk_model("rate"),
    ]


@prop("P06")
def p06(tier):
    q = tier == "quick"
    return [
        lts("shed-lts", "LoadShed", "limit", {"NH": 2, "NK": 2, "Cfgs": '{[kind|->k] : k \\in {"new","layer","builder"}}',
            "Modes": '{"ready","pending","err1"}', "Rs": '{"ok","err"}'}, props=["NeverWaits", "ShedExactly"]),
        trace("shed-big", "LoadShed", "limit", {"NH": 8, "NK": 60, "Cfgs": "{}", "Modes": "{}", "Rs": "{}"}, {"nh": 8, "nk": 60}, 10, 500, props=["NeverWaits", "ShedExactly"], chunks=1 if q else 10),
        trace("shed-random", "LoadShed", "limit", {"NH": 5, "NK": 10, "Cfgs": "{}", "Modes": "{}", "Rs": "{}"},
              {"nh": 5, "nk": 10}, 100, 150, props=["NeverWaits", "ShedExactly"], chunks=1 if q else 30),
    ]


@prop("P07")
def p07(tier):
    q = tier == "quick"
    return [
        lts("timeout-lts", "Timeout", "limit", {"NH": 1, "NK": 2, "Cfgs": '{[u|->1, t|->t, kind|->k] : t \\in 0..3, k \\in {"new","layer","builder"}}',
            "Modes": '{"ready","pending","err1"}' if not q else '{}', "Rs": '{"ok","err"}', "Advs": "{1,2}"}, props=["NeverEarly"]),
        lts("timeout-ready", "Timeout", "limit", {"NH": 2, "NK": 1, "Cfgs": '{[u|->1, t|->t, kind|->"new"] : t \\in {2}}',
            "Modes": '{"ready","pending","err1"}', "Rs": '{"ok","err"}', "Advs": "{1}"}, props=["NeverEarly"]),
        lts("timeout-fine", "Timeout", "limit", {"NH": 1, "NK": 2, "Cfgs": '{[u|->4, t|->t, kind|->"new"] : t \\in {0,1,2,3,5}}',
            "Modes": '{}', "Rs": '{"ok"}', "Advs": "{1,3}" if q else "{1,2,3}"}, props=["NeverEarly"], secs=5 if q else 60),
        trace("timeout-big", "Timeout", "limit", {"NH": 4, "NK": 60, "Cfgs": "{}", "Modes": "{}", "Rs": "{}", "Advs": "{}"}, {"nh": 4, "nk": 60}, 10, 500, props=["NeverEarly"], chunks=1 if q else 10),
        trace("timeout-random", "Timeout", "limit", {"NH": 4, "NK": 10, "Cfgs": "{}", "Modes": "{}", "Rs": "{}", "Advs": "{}"},
              {"nh": 4, "nk": 10}, 150, 120, props=["NeverEarly"], chunks=1 if q else 30),
    ]


# ------------------------------------------------------------------ retry
@prop("P08")
def p08(tier):
    q = tier == "quick"
    props = ["AttemptsAreDecided", "OneAnswer", "AskedOnce"]
    return [
        lts("retry-one", "Retry", "retry", {"NH": 1, "NK": 1, "Cfgs": '{[kind|->k] : k \\in {"new","layer","builder"}}', "Modes": '{"ready","pending","err1"}',
            "Rs": '{"ok","err"}', "Decs": '{"stop","retry","mut","swap"}', "Lates": "BOOLEAN"}, props=props),
        lts("retry-two", "Retry", "retry", {"NH": 1, "NK": 2, "Cfgs": '{[kind|->"new"]}', "Modes": '{}' if q else '{"ready","pending","err1"}',
            "Rs": '{"err"}', "Decs": '{"stop","retry"}', "Lates": "{FALSE}" if q else "BOOLEAN"}, props=props),
        trace("retry-big", "Retry", "retry", {"NH": 6, "NK": 40, "Cfgs": "{}", "Modes": "{}", "Rs": "{}", "Decs": "{}", "Lates": "{}"}, {"nh": 6, "nk": 40}, 10, 500, props=props, chunks=1 if q else 10),
        trace("retry-random", "Retry", "retry", {"NH": 3, "NK": 8, "Cfgs": "{}", "Modes": "{}", "Rs": "{}", "Decs": "{}", "Lates": "{}"},
              {"nh": 3, "nk": 8}, 150, 200, props=props, chunks=1 if q else 30),
        bulk("retry-bulk", "retry", HUGE, q, steps=15),
        bulk_model("retry"),
    ]


# ------------------------------------------------------------------ retry budget, backoff
@prop("P09")
def p09(tier):
    q = tier == "quick"
    cf = '{[ttl|->t, min|->m, pct|->p] : t \\in {1000}, m \\in {0,1}, p \\in %s}'
    props = ["Covered", "Pays"]
    return [
        lts("tps-lts", "TpsBudget", "budget", {"Cfgs": cf % ("{60,100,150}" if q else "{0,20,50,60,75,100,150,200,700,1000}"), "Advs": "{50,100,101,450,1000}", "Bursts": "{<<1,9>>}", "Mixes": "{}",
            "MaxOps": 5 if q else 7}, props=props),
        lts("tps-race", "TpsBudget", "budget", {"Cfgs": '{[ttl|->60000, min|->m, pct|->p] : m \\in {0,1}, p \\in {0,75,200}}', "Advs": "{}", "Bursts": "{<<4,16>>, <<4,3>>, <<2,1>>}", "Mixes": "{}",
            "MaxOps": 6 if q else 10}, props=props, secs=20 if q else 300),
        # the outcome is left open, not all edges can be had
        lts("tps-mix", "TpsBudget", "budget", {"Cfgs": '{[ttl|->1000, min|->m, pct|->p] : m \\in {0,1}, p \\in {50,100}}', "Advs": "{100}", "Bursts": "{<<1,9>>}", "Mixes": "{<<2,2>>}",
            "MaxOps": 5}, props=props, secs=6 if q else 300),
        trace("tps-random", "TpsBudget", "budget", {"Cfgs": "{}", "Advs": "{}", "Bursts": "{}", "Mixes": "{}", "MaxOps": 0}, {}, 150, 200,
              props=props, chunks=1 if q else 30),
        # two operations at once, one of them stopped after some machine instruction
        trace("tps-cut", "TpsBudget", "budget", {"Cfgs": "{}", "Advs": "{}", "Bursts": "{}", "Mixes": "{}", "MaxOps": 0}, {"cut": True}, 60, 150,
              chunks=1 if q else 30),
    ]


@prop("P10")
def p10(tier):
    q = tier == "quick"
    return [
        lts("backoff-lts", "Backoff", "budget", {"NS": 1, "Mins": "{0,16,48,1600}", "Maxs": "{0,16,320,4800,32000}", "Jits": "{-1,0,1,2,3,20,200,201,998,999}",
            "Fs": "{0,1,7}", "MaxIter": 7, "Units": '{"ms"}'}, props=["Bounds"]),
        # far beyond the point where the doubling leaves 32 bits
        lts("backoff-deep", "Backoff", "budget", {"NS": 1, "Mins": "{0,1,3,1000,1073741824}", "Maxs": "{5,65536,1000000,2147483647}", "Jits": "{0}",
            "Fs": "{0}", "MaxIter": 40, "Units": '{"us","ms","ds"}'}, props=["Bounds"]),
        # more doublings than an integer has bits
        lts("backoff-tiny", "Backoff", "budget", {"NS": 1, "Mins": "{0,1,3,1000}", "Maxs": "{1,4194304,8388608,2147483647}", "Jits": "{0}",
            "Fs": "{0}", "MaxIter": 50, "Units": '{"tiny"}'}, props=["Bounds"]),
        # up to the end of what a duration can say
        lts("backoff-far", "Backoff", "budget", {"NS": 1, "Mins": "{0,1,1000,536870912,1073741824}", "Maxs": "{1,1000,1073741823,1073741824}", "Jits": "{0,1,2,200}",
            "Fs": "{0,1,7}", "MaxIter": 5 if q else 40, "Units": '{"eon"}'}, props=["Bounds"]),
        lts("backoff-two", "Backoff", "budget", {"NS": 2, "Mins": "{16,320}", "Maxs": "{320,4800}", "Jits": "{0,2}",
            "Fs": "{0,5}", "MaxIter": 6, "Units": '{"ms"}'}, props=["Bounds"]),
        trace("backoff-random", "Backoff", "budget", {"NS": 3, "Mins": "{}", "Maxs": "{}", "Jits": "{}", "Fs": "{}", "MaxIter": 0, "Units": "{}"}, {}, 100, 120,
              props=["Bounds"], chunks=1 if q else 30),
    ]


# ------------------------------------------------------------------ steer, reconnect, spawn-ready
@prop("P16")
def p16(tier):
    q = tier == "quick"
    props = ["ReadyMeansAll", "Routed"]
    return [
        lts("steer-lts", "Steer", "route", {"NH": 1, "NK": 1, "NS": 2 if q else 3, "Cfgs": '{[ns|->NS]}', "Modes": '{"ready","pending","err1"}', "Rs": '{"ok","err"}'}, props=props),
        lts("steer-clone", "Steer", "route", {"NH": 2, "NK": 1, "NS": 2, "Cfgs": '{[ns|->NS]}', "Modes": '{"ready","pending"}', "Rs": '{"ok"}'}, props=props),
        trace("steer-big", "Steer", "route", {"NH": 3, "NK": 40, "NS": 6, "Cfgs": "{}", "Modes": "{}", "Rs": "{}"}, {"ns": 6, "nh": 1, "nk": 40}, 4, 300, props=props, chunks=1 if q else 10),
        trace("steer-random", "Steer", "route", {"NH": 3, "NK": 6, "NS": 3, "Cfgs": "{}", "Modes": "{}", "Rs": "{}"}, {"ns": 3, "nh": 3, "nk": 6}, 120, 120,
              props=props, chunks=1 if q else 30),
        bulk("steer-bulk", "steer", LARGE, q),
        bulk_model("steer"),
    ]


@prop("P17")
def p17(tier):
    q = tier == "quick"
    props = ["OneAttempt", "Sticky", "Reported"]
    cf = '{[kind|->k] : k \\in %s}'
    return [
        lts("rec-lts", "Reconnect", "route", {"NK": 1, "MIds": "{1,2}" if q else "1..3", "Cfgs": cf % '{"new","with"}', "Modes": '{"ready","pending","err1"}' if not q else '{"ready","err1"}',
            "MModes": '{"ready","pending","err1"}', "Rs": '{"ok","err"}'}, props=props),
        lts("rec-pending", "Reconnect", "route", {"NK": 1, "MIds": "1..3", "Cfgs": cf % '{"new","with"}', "Modes": '{"ready","pending"}',
            "MModes": '{"ready","pending"}', "Rs": '{"ok"}'}, props=props),
        trace("rec-random", "Reconnect", "route", {"NK": 6, "MIds": "{}", "Cfgs": "{}", "Modes": "{}", "MModes": "{}", "Rs": "{}"}, {"nk": 6}, 150, 150,
              props=props, chunks=1 if q else 30),
    ]


@prop("P18")
def p18(tier):
    q = tier == "quick"
    return [
        lts("spawn-lts", "SpawnReady", "route", {"NK": 1 if q else 2, "Cfgs": '{[kind|->k] : k \\in {"new","layer","slayer"}}', "Modes": '{"ready","pending","err1"}', "Rs": '{"ok","err"}'}),
        trace("spawn-random", "SpawnReady", "route", {"NK": 5, "Cfgs": "{}", "Modes": "{}", "Rs": "{}"}, {"nk": 5}, 200, 100, chunks=1 if q else 30),
    ]


# ------------------------------------------------------------------ hedge, filter
@prop("P11")
def p11(tier):
    q = tier == "quick"
    props = ["SecondJustified", "AtMostTwo", "NoSecondWithoutData"]
    cf = '{[u|->1, lat|->l, min|->m, pct|->p, per|->4] : l \\in %s, m \\in %s, p \\in %s}'
    return [
        lts("hedge-one", "Hedge", "hedge", {"NK": 1, "Cfgs": cf % ("{<<2>>}", "{1,2}", "{50}"), "Modes": '{"ready","pending","err1"}', "Rs": '{"ok","err"}',
            "Advs": "{1}", "MaxCalls": 1 if q else 2, "MaxAge": 3}, props=props),
        lts("hedge-rotate", "Hedge", "hedge", {"NK": 1, "Cfgs": cf % ("{<<>>, <<1,3>>}", "{1}" if q else "{0,1,2}", "{100}" if q else "{0,50,100}"), "Modes": '{}', "Rs": '{"ok"}',
            "Advs": "{1,3}", "MaxCalls": 2, "MaxAge": 4}, props=props),
        *([] if q else [lts("hedge-rotate-3", "Hedge", "hedge", {"NK": 1, "Cfgs": cf % ("{<<1,3>>}", "{2}", "{50}"), "Modes": '{}', "Rs": '{"ok"}',
            "Advs": "{1,3}", "MaxCalls": 3, "MaxAge": 4}, props=props)]),
        lts("hedge-fine", "Hedge", "hedge", {"NK": 1, "Cfgs": cf.replace("u|->1", "u|->4") % ("{<<1>>}" if q else "{<<>>, <<1>>}", "{1}", "{100}"), "Modes": '{}', "Rs": '{"ok"}',
            "Advs": "{1,3}" if q else "{1,3,12}", "MaxCalls": 1 if q else 2, "MaxAge": 9}, props=props, secs=6 if q else 300),
        trace("hedge-big", "Hedge", "hedge", {"NK": 20, "Cfgs": "{}", "Modes": "{}", "Rs": "{}", "Advs": "{}", "MaxCalls": 0, "MaxAge": 0}, {"nk": 20}, 10, 500, props=props, chunks=1 if q else 10),
        trace("hedge-near", "Hedge", "hedge", {"NK": 2, "Cfgs": "{}", "Modes": "{}", "Rs": "{}", "Advs": "{}", "MaxCalls": 0, "MaxAge": 0}, {"nk": 2, "near": True}, 80, 60,
              props=props, chunks=1 if q else 30),
        cut("hedge-cut", "Hedge", "hedge", {"NK": 4, "Cfgs": "{}", "Modes": "{}", "Rs": "{}", "Advs": "{}", "MaxCalls": 0, "MaxAge": 0}, {"nk": 4}, 60, 120, chunks=1 if q else 50),
        trace("hedge-random", "Hedge", "hedge", {"NK": 4, "Cfgs": "{}", "Modes": "{}", "Rs": "{}", "Advs": "{}", "MaxCalls": 0, "MaxAge": 0}, {"nk": 4}, 150, 200,
              props=props, chunks=1 if q else 30),
        bulk("hedge-bulk", "hedge", HUGE[:-1], q, runs=16),
        bulk_model("hedge"),
    ]


@prop("P19")
def p19(tier):
    q = tier == "quick"
    props = ["OnlyPassed", "RejectedFails"]
    return [
        lts("filter-lts", "Filter", "hedge", {"NH": 1, "NK": 2, "Cfgs": '{[async|->FALSE, kind|->k] : k \\in {"new","layer","flayer","builder","ext"}} \\cup {[async|->TRUE, kind|->k] : k \\in {"new","layer","flayer","builder","ext"}}',
            "Modes": '{"ready","pending","err1"}', "Rs": '{"ok","err"}' if not q else '{"ok"}', "Vs": '{"pass","reject","mut"}'}, props=props),
        trace("filter-big", "Filter", "hedge", {"NH": 4, "NK": 40, "Cfgs": "{}", "Modes": "{}", "Rs": "{}", "Vs": "{}"}, {"nh": 4, "nk": 40}, 10, 500, props=props, chunks=1 if q else 10),
        trace("filter-random", "Filter", "hedge", {"NH": 3, "NK": 6, "Cfgs": "{}", "Modes": "{}", "Rs": "{}", "Vs": "{}"}, {"nh": 3, "nk": 6}, 150, 150,
              props=props, chunks=1 if q else 30),
    ]


# ------------------------------------------------------------------ ready cache, balance
@prop("P12")
def p12(tier):
    q = tier == "quick"
    props = ["UsesReady", "NewestWins", "NotForgotten"]
    cf = '{[idx|->b, nkey|->NKey, nsvc|->NSvc] : b \\in %s}'
    return [
        lts("cache-one", "ReadyCache", "balance", {"NKey": 1, "NSvc": 3, "Cfgs": cf % ("{FALSE}" if q else "BOOLEAN"), "Modes": '{"ready","lost"}'}, props=props),
        lts("cache-err", "ReadyCache", "balance", {"NKey": 1, "NSvc": 2 if q else 3, "Cfgs": cf % "BOOLEAN", "Modes": '{"ready","lost","err1"}'}, props=props, secs=30 if q else 900),
        lts("cache-two", "ReadyCache", "balance", {"NKey": 2, "NSvc": 2 if q else 3, "Cfgs": cf % "{TRUE}", "Modes": '{"ready","lost","err1"}'}, props=props, secs=30 if q else 900),
        trace("cache-big", "ReadyCache", "balance", {"NKey": 24, "NSvc": 40, "Cfgs": "{}", "Modes": "{}"}, {"nkey": 24, "nsvc": 40}, 10, 500, props=props, chunks=1 if q else 10),
        trace("cache-random", "ReadyCache", "balance", {"NKey": 5, "NSvc": 7, "Cfgs": "{}", "Modes": "{}"}, {"nkey": 5, "nsvc": 7}, 150, 150,
              props=props, chunks=1 if q else 30),
        bulk("cache-bulk", "cache", LARGE, q),
        bulk_model("cache"),
    ]


BAL = '{[load|->"own", kind|->k, nkey|->NKey, nsvc|->NSvc, nk|->NK, seed|->n] : k \\in %s, n \\in %s}'
BALBIG = {"NKey": 5, "NSvc": 7, "NK": 4, "Cfgs": "{}", "Modes": "{}", "Loads": "{}", "Rs": "{}", "MaxQ": 0, "Disc": "{}"}
BALPROPS = ["ToMember", "NotBusiest", "Removed"]


@prop("P13")
def p13(tier):
    q = tier == "quick"
    return [
        lts("bal-members", "Balance", "balance", {"NKey": 2, "NSvc": 2, "NK": 1, "Cfgs": BAL % ('{"seed"}', "{1}"), "Modes": '{"ready","lost"}', "Loads": "{}", "Rs": "{}",
            "MaxQ": 2, "Disc": '{"end"}'}, props=BALPROPS, secs=30 if q else 900),
        lts("bal-fail", "Balance", "balance", {"NKey": 1, "NSvc": 2, "NK": 1, "Cfgs": BAL % ('{"new"}', "{1}"), "Modes": '{"ready","pending","lost","err1"}', "Loads": "{}", "Rs": '{"ok","err"}',
            "MaxQ": 1, "Disc": '{"err"}'}, props=BALPROPS, secs=30 if q else 900),
        bulk("bal-bulk", "balance", LARGE, q, runs=6, steps=60),
        bulk_model("balance"),
        trace("bal-big", "Balance", "balance", {**BALBIG, "NKey": 24, "NSvc": 40, "NK": 10}, {"nkey": 24, "nsvc": 40, "nk": 10}, 5, 300, props=BALPROPS, chunks=1 if q else 10),
        trace("bal-random", "Balance", "balance", BALBIG, {"nkey": 5, "nsvc": 7, "nk": 4}, 150, 150, props=BALPROPS, chunks=1 if q else 30),
    ]


@prop("P14")
def p14(tier):
    q = tier == "quick"
    return [
        lts("bal-choice", "Balance", "balance", {"NKey": 3, "NSvc": 3, "NK": 1, "Cfgs": BAL % ('{"seed"}', "{1}" if q else "{1,2}"), "Modes": '{}', "Loads": "{1,2}", "Rs": "{}",
            "MaxQ": 1, "Disc": '{"spread","fixed"}' if q else '{"spread"}'}, props=BALPROPS, secs=30 if q else 900),
        lts("choice-share", "Choice", "balance", {"Cfgs": '{[kind |-> k, seed |-> 7] : k \\in {"new","make","seed","kept"}}', "Ns": "{1,2,3}" if q else "1..4", "Loads": "{1,2}" if q else "{1,2,3}"},
            props=["Sound"]),
        trace("choice-random", "Choice", "balance", {"Cfgs": "{}", "Ns": "{}", "Loads": "{}"}, {"maxn": 5}, 8, 5, props=["Sound"], chunks=1 if q else 20),
        trace("choice-many", "Choice", "balance", {"Cfgs": "{}", "Ns": "{}", "Loads": "{}"}, {"maxn": 40}, 6, 2, props=["Sound"], chunks=1 if q else 20),
        lts("rng-words", "Rng", "balance", {"Cfgs": '{[kind |-> k, seed |-> 7] : k \\in {"new","default","fixed","own","box"}}', "Ns": "{1,2,3,5,16}", "Words": "0..9"}),
        trace("rng-random", "Rng", "balance", {"Cfgs": "{}", "Ns": "{}", "Words": "{}"}, {}, 10, 20, chunks=1 if q else 20),
        trace("bal-wide", "Balance", "balance", {**BALBIG, "NKey": 24, "NSvc": 40, "NK": 30}, {"nkey": 24, "nsvc": 40, "nk": 30, "wide": True}, 4, 100, props=BALPROPS, chunks=1 if q else 10),
        lts("bal-pending", "Balance", "balance", {"NKey": 2, "NSvc": 2, "NK": 2, "Cfgs": BAL.replace('"own"', '"pending"') % ('{"seed"}', "{1}"), "Modes": '{"pending","ready"}' if not q else '{}', "Loads": "{}",
            "Rs": '{"ok"}' if q else '{"ok","err"}', "MaxQ": 1, "Disc": '{"fixed"}' if q else '{"spread","fixed"}'}, props=BALPROPS, secs=20 if q else 600),
        trace("bal-measured", "Balance", "balance", {**BALBIG, "NK": 8}, {"nkey": 5, "nsvc": 7, "nk": 8, "loads": True, "measured": True}, 100, 150, props=BALPROPS, chunks=1 if q else 30),
        trace("bal-loads", "Balance", "balance", BALBIG, {"nkey": 5, "nsvc": 7, "nk": 4, "loads": True}, 150, 150, props=BALPROPS, chunks=1 if q else 30),
    ]


# ------------------------------------------------------------------ load
@prop("P15")
def p15(tier):
    q = tier == "quick"
    props = ["Steady", "Peak", "Apart"]
    cf = '{[ns|->NS, what|->w, track|->t, kind|->k, rtt|->r, unit|->u, nk|->NK] : u \\in %s, w \\in %s, t \\in %s, k \\in %s, r \\in %s}'
    return [
        lts("load-count", "Load", "load", {"NS": 1, "NK": 3, "Cfgs": cf % ("{1000}", '{"pending"}', '{"resp","hold"}', '{"new","disc"}', "{1024}"), "Modes": "{}",
            "Rs": '{"ok","err"}', "Advs": "{}", "MaxT": 0}, props=props),
        bulk("load-bulk", "load", HUGE[:-4], q),
        bulk_model("load"),
        lts("load-panic", "Load", "load", {"NS": 1, "NK": 2, "Cfgs": cf % ("{1000}", '{"pending","ewma"}', '{"resp","hold"}', '{"new","climit"}', "{1024}"), "Modes": "{}",
            "Rs": '{"ok","panic"}', "Advs": "{1024}", "MaxT": 1024}, props=props),
        lts("load-ready", "Load", "load", {"NS": 1, "NK": 1, "Cfgs": cf % ("{1000}", '{"pending","ewma","const"}', '{"resp","hold"}', '{"new","disc","climit","rate","limits"}', "{1024}"), "Modes": '{"ready","pending","err1"}',
            "Rs": '{"ok","err"}', "Advs": "{1024}", "MaxT": 1024}, props=props),
        lts("load-ewma", "Load", "load", {"NS": 1, "NK": 2, "Cfgs": cf % ("{1000}", '{"ewma"}', '{"resp","hold"}' if not q else '{"resp"}', '{"new","disc"}' if not q else '{"new"}', "{100,1024,5000}" if not q else "{1024}"), "Modes": "{}",
            "Rs": "{}" if q else '{"ok"}', "Advs": "{1024,2048}" if q else "{1024,3072}", "MaxT": 3072 if q else 6144}, props=props, secs=30 if q else 900),
        lts("load-fine", "Load", "load", {"NS": 1, "NK": 1 if q else 2, "Cfgs": cf % ("{1,30000}", '{"ewma"}', '{"resp"}' if q else '{"resp","hold"}', '{"new"}' if q else '{"new","disc"}', "{1024}"), "Modes": "{}",
            "Rs": '{"ok"}', "Advs": "{1024}" if q else "{1024,2048}", "MaxT": 3072}, props=props, secs=30 if q else 900),
        lts("load-disc", "Load", "load", {"NS": 2, "NK": 2, "Cfgs": cf % ("{1000}", '{"pending","ewma"}', '{"resp","hold"}' if not q else '{"resp"}', '{"disc"}', "{1024}"), "Modes": "{}",
            "Rs": '{"ok"}' if not q else "{}", "Advs": "{1024}", "MaxT": 1024}, props=props, secs=20 if q else 600),
        trace("load-big", "Load", "load", {"NS": 3, "NK": 60, "Cfgs": "{}", "Modes": "{}", "Rs": "{}", "Advs": "{}", "MaxT": 0}, {"ns": 3, "nk": 60}, 10, 500, props=props, chunks=1 if q else 10),
        cut("load-cut", "Load", "load", {"NS": 3, "NK": 6, "Cfgs": "{}", "Modes": "{}", "Rs": "{}", "Advs": "{}", "MaxT": 0}, {"ns": 3, "nk": 6}, 60, 120, chunks=1 if q else 50),
        trace("load-random", "Load", "load", {"NS": 3, "NK": 6, "Cfgs": "{}", "Modes": "{}", "Rs": "{}", "Advs": "{}", "MaxT": 0}, {"ns": 3, "nk": 6}, 150, 150,
              props=props, chunks=1 if q else 30),
    ]


# ------------------------------------------------------------------ utilities
@prop("P20")
def p20(tier):
    q = tier == "quick"
    props = ["InOrder", "OldestFirst", "EndLast"]
    cf = '{[kind|->k, nk|->NK] : k \\in %s}'
    return [
        lts("all-lts", "CallAll", "util", {"NK": 3 if q else 4, "Cfgs": cf % ('{"all","unord"}' if q else '{"all","new","unord","conv"}'), "Modes": '{"ready","pending","err1"}', "Rs": '{"ok","err"}'},
            props=props, secs=30 if q else 900),
        lts("all-kinds", "CallAll", "util", {"NK": 2, "Cfgs": cf % '{"all","new","unord","conv"}', "Modes": '{"ready","pending","err1"}', "Rs": '{"ok","err"}'}, props=props),
        trace("all-random", "CallAll", "util", {"NK": 40, "Cfgs": "{}", "Modes": "{}", "Rs": "{}"}, {"nk": 40}, 150, 150, props=props, chunks=1 if q else 30),
        bulk("all-bulk", "all", [1, 2, 17, 255, 256, 257, 1000, 1024, 1025, 5000], q),
        bulk_model("all"),
    ]


PIPECF = '{[pipe|->p, via|->v, how|->w, leaf|->l, nh|->NH, nk|->NK] : p \\in %s, v \\in %s, w \\in %s, l \\in %s}'
EFFECT = '{"req","resp","err","result","then","andthen","future","filter"}'
PLAIN = '{"id","absent","left","right","box","boxclone","boxsync","unsync","boxlayer","boxclonelayer","boxsynclayer","timeout","climit","rate"}'
VIAS = '{"chain","nest","ref","fn","either","boxlayer","boxclonelayer","boxsynclayer","tuple","builder","service","stackl","stackr","into"}'
HOWS = '{"ext","new","assoc","layer","option","builder"}'
PIPEPROPS = ["Onion", "OnlyOwnPath"]


def pipe_random(q, name="pipe-random"):
    return trace(name, "Pipe", "util", {"NH": 3, "NK": 5, "Cfgs": "{}", "Modes": "{}", "Rs": "{}"}, {"nh": 3, "nk": 5}, 200, 120,
                 props=PIPEPROPS, chunks=2 if q else 40)


@prop("P21")
def p21(tier):
    q = tier == "quick"
    seq = "UNION {[1..n -> %s] : n \\in %s}"
    base = {"NH": 1, "NK": 1, "Modes": "{}", "Rs": '{"ok"}'}
    return [
        lts("order-small", "Pipe", "util", {**base, "Cfgs": PIPECF % (seq % ('{"req","future"}', "0..3" if q else "0..4"), VIAS, '{"layer"}', '{"mock","fn"}')}, props=PIPEPROPS),
        lts("order-long", "Pipe", "util", {**base, "Cfgs": PIPECF % ('{[j \\in 1..n |-> IF j % m = 0 THEN "resp" ELSE "req"] : n \\in 1..16, m \\in {1,3,99}}', VIAS, '{"layer"}', '{"mock"}')}, props=PIPEPROPS),
        lts("order-methods", "Pipe", "util", {**base, "Cfgs": PIPECF % (
            "{<<x, y>> : x \\in %s, y \\in %s} \\cup {<<\"req\", y>> : y \\in %s} \\cup {<<y, \"req\">> : y \\in %s}" % (EFFECT, EFFECT, PLAIN, PLAIN),
            '{"chain"}', '{"builder"}' if q else HOWS, '{"mock"}')}, props=PIPEPROPS),
        pipe_random(q),
    ]


@prop("P22")
def p22(tier):
    q = tier == "quick"
    return [
        lts("comb-one", "Pipe", "util", {"NH": 1, "NK": 1, "Modes": '{"ready","pending","err1"}', "Rs": '{"ok","err"}',
            "Cfgs": PIPECF % ("{<<x>> : x \\in %s}" % EFFECT, '{"chain"}', HOWS, '{"mock"}')}, props=PIPEPROPS),
        lts("comb-two", "Pipe", "util", {"NH": 1, "NK": 1, "Modes": '{"err1"}' if q else '{"ready","pending","err1"}', "Rs": '{"ok","err"}',
            "Cfgs": PIPECF % ("{<<x, y>> : x \\in %s, y \\in %s}" % (EFFECT, EFFECT), '{"chain"}', '{"ext"}' if q else HOWS, '{"mock"}' if q else '{"mock","fn"}')}, props=PIPEPROPS),
        lts("comb-overlap", "Pipe", "util", {"NH": 2, "NK": 2, "Modes": '{}', "Rs": '{"ok","err"}',
            "Cfgs": PIPECF % ("{<<x>> : x \\in %s}" % EFFECT, '{"chain"}', '{"layer"}', '{"mock"}')}, props=PIPEPROPS),
        pipe_random(q),
    ]


@prop("P23")
def p23(tier):
    q = tier == "quick"
    cl = '{"id","absent","left","right","boxclone","boxsync","boxclonelayer","boxsynclayer"}'
    md = {"Modes": '{"ready","pending","err1"}', "Rs": '{"ok","err"}'}
    return [
        lts("shot-lts", "Oneshot", "util", {"NK": 1 if q else 2, "Cfgs": "{[nk|->NK]}", "Kinds": '{"oneshot","new","owned","ownednew","ready","readynew"}', **md}, props=["OnlyReady", "Once"]),
        lts("shot-two", "Oneshot", "util", {"NK": 2, "Cfgs": "{[nk|->NK]}", "Kinds": '{"oneshot","owned","ready"}', **md}, props=["OnlyReady", "Once"]),
        trace("shot-big", "Oneshot", "util", {"NK": 40, "Cfgs": "{}", "Kinds": "{}", "Modes": "{}", "Rs": "{}"}, {"nk": 40}, 10, 500, props=["OnlyReady", "Once"], chunks=1 if q else 10),
        trace("shot-random", "Oneshot", "util", {"NK": 6, "Cfgs": "{}", "Kinds": "{}", "Modes": "{}", "Rs": "{}"}, {"nk": 6}, 150, 150, props=["OnlyReady", "Once"], chunks=1 if q else 30),
        lts("future-lts", "FutureService", "util", {"NH": 2, "NK": 1, "Cfgs": '{[kind|->k] : k \\in {"new","fn"}}', **md}, props=["NotBefore"]),
        trace("future-random", "FutureService", "util", {"NH": 3, "NK": 5, "Cfgs": "{}", "Modes": "{}", "Rs": "{}"}, {"nh": 3, "nk": 5}, 150, 150, props=["NotBefore"], chunks=1 if q else 30),
        lts("box-one", "Pipe", "util", {"NH": 1, "NK": 1, **md, "Cfgs": PIPECF % ("{<<x>> : x \\in %s}" % PLAIN, '{"chain"}', '{"ext","new","layer","builder"}', '{"mock","some","fn","none"}' if not q else '{"mock"}')}, props=PIPEPROPS),
        lts("box-clone", "Pipe", "util", {"NH": 2, "NK": 1, **md, "Cfgs": PIPECF % ("{<<x>> : x \\in %s}" % cl, '{"chain"}', '{"new","layer","builder"}' if not q else '{"layer"}', '{"mock"}')}, props=PIPEPROPS),
        lts("box-leaf", "Pipe", "util", {"NH": 1, "NK": 2, **md, "Cfgs": PIPECF % ("{<<>>, <<\"err\">>}", '{"chain"}', '{"layer"}', '{"some","fn","none"}')}, props=PIPEPROPS),
    ]


# ------------------------------------------------------------------ tower-test, makers
@prop("P24")
def p24(tier):
    q = tier == "quick"
    cf = '{[kind|->k, nh|->NH, nk|->NK] : k \\in %s}'
    return [
        lts("mock-one", "TestMock", "util", {"NH": 1, "NK": 2, "Cfgs": cf % ('{"pair"}' if q else '{"pair","spawn"}'), "Allows": "{0,1,2}"}, props=["Bound"]),
        lts("mock-two", "TestMock", "util", {"NH": 2, "NK": 1 if q else 2, "Cfgs": cf % ('{"spawn"}' if q else '{"pair","spawn","spawn_layer","spawn_with"}'), "Allows": "{0,1}"}, props=["Bound"], secs=30 if q else 900),
        trace("mock-big", "TestMock", "util", {"NH": 10, "NK": 40, "Cfgs": "{}", "Allows": "{}"}, {"nh": 10, "nk": 40}, 10, 500, props=["Bound"], chunks=1 if q else 10),
        trace("mock-random", "TestMock", "util", {"NH": 4, "NK": 8, "Cfgs": "{}", "Allows": "{}"}, {"nh": 4, "nk": 8}, 150, 150, props=["Bound"], chunks=1 if q else 30),
        cut("mock-cut", "TestMock", "util", {"NH": 3, "NK": 5, "Cfgs": "{}", "Allows": "{}"}, {"nh": 3, "nk": 5}, 60, 100, props=["Bound"], chunks=1 if q else 30),
        bulk("mock-bulk", "allow", HUGE, q),
        bulk_model("allow"),
    ]


@prop("P25")
def p25(tier):
    q = tier == "quick"
    return [
        lts("make-lts", "Pipe", "util", {"NH": 1 if q else 2, "NK": 2, "Modes": '{"ready","pending","err1"}', "Rs": '{"ok","err"}',
            "Cfgs": PIPECF % ("{<<>>}", '{"nest"}', '{"layer"}', '{"mkblanket","mkinto","mkas","mkconn","mkbalance","mkbalancelayer","shared"}')}, props=PIPEPROPS),
        lts("make-clone", "Pipe", "util", {"NH": 2, "NK": 1, "Modes": '{"ready","pending"}', "Rs": '{"ok"}',
            "Cfgs": PIPECF % ("{<<>>}", '{"nest"}', '{"layer"}', '{"mkblanket","mkinto","mkas","mkconn","mkbalance","mkbalancelayer","shared"}')}, props=PIPEPROPS),
        lts("disc-list", "Discover", "util", {"Cfgs": '{[kind|->"list", n|->n] : n \\in (0..%d) \\cup {300}}' % (6 if q else 200), "Items": "{}", "MaxQ": 0}),
        lts("disc-stream", "Discover", "util", {"Cfgs": '{[kind|->"stream", n|->0]}', "Items": '{<<"insert",1,10>>,<<"insert",2,20>>,<<"remove",1>>,<<"err","e1">>,<<"end">>}', "MaxQ": 3 if q else 4}),
        pipe_random(q, "make-random"),
        trace("disc-random", "Discover", "util", {"Cfgs": "{}", "Items": "{}", "MaxQ": 100000}, {}, 100, 60),
    ]


@prop("P26")
def p26(tier):
    q = tier == "quick"
    props = ["CalledReady"]
    both = ["TRUE", "FALSE"]
    base = {"NH": 2, "NK": 2, "Modes": '{"ready","pending"}', "Rs": '{"ok","err"}', "Advs": "{100}"}
    fits = lambda l: RY not in l or all(x is not RT or BF in l[l.index(RY):i] for i, x in enumerate(l) if i > l.index(RY))
    kinds = [CL, RT, SH, TO, RY, BF]
    perm = lambda n: [l for l in itertools.permutations(kinds, n) if fits(l)]
    one = {**base, "NH": 1, "NK": 1}
    two = {**base, "NH": 1, "NK": 2}
    classic = [[TO, RY, CL], [BF, SH, CL], [RY, BF, RT], [SH, BF, RT, CL], [TO, RY, SH, BF, CL], [CL2, TO, BF, RT, TO]]
    s = [
        lts("stack-pairs", "Stack", "stack", {**one, "Cfgs": stacks(["FALSE"], *perm(2))}, props=props, secs=30 if q else 300),
        lts("stack-pairs-auto", "Stack", "stack", {**one, "Modes": '{"ready","pending","err1"}', "Cfgs": stacks(["TRUE"], *[l for l in perm(2) if BF in l])}, props=props, secs=20 if q else 300),
        lts("stack-buffered", "Stack", "stack", {**two, "Rs": '{"ok"}', "Modes": '{"ready","pending"}', "Advs": "{}", "Cfgs": stacks(["FALSE"], [BF, CL], [CL, BF], [SH, BF, CL])}, props=props, secs=20 if q else 600),
        lts("stack-panic", "Stack", "stack", {**one, "Rs": '{"panic"}', "Modes": '{"ready","pending"}', "Advs": "{}", "Cfgs": stacks(["FALSE"], [TO, CL], [RY, CL], [CL, RY], [CL, CL], [SH, CL], [BF, CL], [CL, BF])}, props=props, secs=20 if q else 300),
        lts("stack-classic", "Stack", "stack", {**one, "Modes": '{}', "Cfgs": stacks(["TRUE"], *classic)}, props=props, secs=20 if q else 600),
        trace("stack-random", "Stack", "stack", {"NH": 3, "NK": 6, "Cfgs": "{}", "Modes": "{}", "Rs": "{}", "Advs": "{}"}, {"nh": 3, "nk": 6, "max": 6}, 250, 150,
              props=props, chunks=1 if q else 40),
    ]
    if not q:
        for x, n in (("CL", CL), ("RT", RT), ("SH", SH), ("TO", TO), ("RY", RY), ("BF", BF)):
            s.append(lts("stack-triples-" + x, "Stack", "stack", {**one, "Cfgs": stacks(["FALSE"], *[l for l in perm(3) if l[0] is n])}, props=props, secs=300))
            s.append(lts("stack-two-" + x, "Stack", "stack", {**two, "Cfgs": stacks(["FALSE"], *[l for l in perm(2) if l[0] is n])}, props=props, secs=300))
        s.append(lts("stack-handles", "Stack", "stack", {**base, "Rs": '{"ok"}', "Advs": "{}", "Cfgs": stacks(["FALSE"], [BF, CL], [CL, BF], [SH, BF, CL])}, props=props, secs=600))
    return s


# ------------------------------------------------------------------ progress under wake-ups alone
def live(name, module, consts, *props, **kw):
    return tlc(name, module + "Live", consts, spec="LiveSpec", view=False, invs=[], props=list(props), tlc_timeout=3600, **kw)


PR, PRE = '{"pending","ready"}', '{"pending","ready","err1"}'
OKS, OUT = '{"ok"}', '{"ok","err"}'


def live_buffer(q):
    c = {"NH": 2, "NK": 1, "Cfgs": BUF % "{1}", "Rs": OKS}
    s = [live("buf-live", "Buffer", {**c, "Modes": PR, "Kill": "FALSE"}, "Everyone", "Handled", "Ends")]
    if not q:
        s.append(live("buf-live-err", "Buffer", {**c, "Modes": PRE, "Kill": "TRUE"}, "Everyone", "Handled", "Ends"))
        s.append(live("buf-live-two", "Buffer", {**c, "NH": 1, "NK": 2, "Cfgs": BUF % "{1,2}", "Modes": PRE, "Kill": "TRUE"}, "Everyone", "Handled", "Ends"))
    return s


def live_stack(q):
    c = {"NH": 1, "NK": 2, "Modes": PR, "Advs": "{100}"}
    s = [live("stack-live", "Stack", {**c, "NK": 1 if q else 2, "Rs": '{"err"}', "Cfgs": stacks(["FALSE"], [RY, CL], [CL, RY], [TO, RY, CL], [RT, CL], [CL, RT], [TO, SH, CL], [BF, CL])}, "Everyone", "Answered")]
    if not q:
        s.append(live("stack-live-buffer", "Stack", {**c, "Rs": OKS, "Cfgs": stacks(["FALSE"], [BF, CL], [CL, BF], [BF, RT, CL])}, "Everyone", "Answered"))
        s.append(live("stack-live-auto", "Stack", {**c, "Rs": OKS, "Cfgs": stacks(["TRUE"], [BF, RT], [SH, BF, RT], [TO, BF, CL])}, "Everyone", "Answered"))
        s.append(live("stack-live-retry", "Stack", {**c, "Rs": '{"err"}', "Cfgs": stacks(["FALSE"], [BF, RY], [RY, BF])}, "Everyone", "Answered"))
        s.append(live("stack-live-retry-auto", "Stack", {**c, "Rs": '{"err"}', "Cfgs": stacks(["TRUE"], [BF, RY], [RY, BF], [RY, BF, CL])}, "Everyone", "Answered"))
    return s


LIVE = {
    "P01": live_buffer,
    "P04": lambda q: [live("cl-live", "ConcurrencyLimit", {"NH": 2 if q else 3, "NC": 2, "Modes": PR, "Rs": OUT,
                           "Cfgs": '{[max|->1, kind|->"new"]}' if q else '{[max|->n, kind|->"new"] : n \\in {1,2}}'}, "Everyone", "Granted")],
    "P05": lambda q: [live("rate-live", "RateLimit", {"Cfgs": '{[u|->1, num|->n, per|->p, kind|->"new"] : n \\in {1,2}, p \\in {1,2,3}}', "Modes": PRE, "Advs": "{1,2}", "MaxK": 1}, "Everyone", "Again")],
    "P07": lambda q: [live("timeout-live", "Timeout", {"NH": 1, "NK": 1 if q else 2, "Cfgs": '{[u|->1, t|->t, kind|->"new"] : t \\in 0..2}', "Modes": PRE, "Rs": OUT, "Advs": "{1,2}"}, "Everyone", "Answered")],
    "P08": lambda q: [live("retry-live", "Retry", {"NH": 1, "NK": 1, "Cfgs": '{[kind|->"new"]}', "Modes": PR if q else PRE, "Rs": OUT, "Decs": '{"stop","retry"}', "Lates": "BOOLEAN"}, "Readied", "Woken", "Advances", "Answered")],
    "P11": lambda q: [live("hedge-live", "Hedge", {"NK": 1, "Cfgs": '{[u|->1, lat|-><<1>>, min|->1, pct|->50, per|->2]}', "Modes": PRE, "Rs": OUT, "Advs": "{1}", "MaxCalls": 1 if q else 2, "MaxAge": 3}, "Everyone", "Answered")],
    "P13": lambda q: [live("bal-live", "Balance", {"NKey": 2, "NSvc": 2, "NK": 1, "Cfgs": BAL % ('{"seed"}', "{1}"), "Modes": PR if q else '{"pending","ready","lost"}', "Loads": "{}", "Rs": OKS, "MaxQ": 1, "Disc": "{}"}, "Everyone", "Answered")],
    "P16": lambda q: [live("steer-live", "Steer", {"NH": 1, "NK": 1, "NS": 2 if q else 3, "Cfgs": '{[ns|->NS]}', "Modes": PRE, "Rs": OKS}, "Everyone")],
    "P17": lambda q: [live("rec-live", "Reconnect", {"NK": 1, "MIds": "{1}" if q else "{1,2}", "Cfgs": '{[kind|->k, nmk|->Cardinality(MIds)] : k \\in {"new","with"}}', "Modes": PRE, "MModes": PR, "Rs": OKS}, "Everyone", "Recovers")],
    "P18": lambda q: [live("spawn-live", "SpawnReady", {"NK": 1, "Cfgs": '{[kind|->"new"]}', "Modes": PRE, "Rs": OUT}, "Everyone", "Settles")],
    "P20": lambda q: [live("all-live", "CallAll", {"NK": 2 if q else 3, "Cfgs": '{[kind|->k, nk|->NK] : k \\in {"all","unord"}}', "Modes": PRE, "Rs": OUT}, "Everyone", "Answered", "Ends")],
    "P19": lambda q: [live("filter-live", "Filter", {"NH": 1, "NK": 1 if q else 2, "Cfgs": '{[async|->a, kind|->"new"] : a \\in BOOLEAN}', "Modes": PRE, "Rs": OUT, "Vs": '{"pass","reject"}'}, "Everyone", "Answered")],
    "P23": lambda q: [live("shot-live", "Oneshot", {"NK": 1 if q else 2, "Cfgs": "{[nk|->NK]}", "Kinds": '{"oneshot","ready"}', "Modes": PRE, "Rs": OUT}, "Everyone", "Over"),
                      live("future-live", "FutureService", {"NH": 2, "NK": 1, "Cfgs": '{[kind|->"new"]}', "Modes": PRE, "Rs": OKS}, "Everyone")],
    "P24": lambda q: [live("mock-live", "TestMock", {"NH": 2, "NK": 1, "Cfgs": '{[kind|->"pair", nh|->NH, nk|->NK]}', "Allows": "{0,1000000}"}, "Everyone")],
    "P26": live_stack,
}


def with_live(pid):
    f = PROPS[pid]["suites"]
    PROPS[pid]["suites"] = lambda tier: f(tier) + LIVE[pid](tier == "quick")


for _pid in LIVE:
    with_live(_pid)
