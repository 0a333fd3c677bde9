"""All simulated devices by group."""

import functools


@functools.cache
def group(name):
    if name == "ws":
        from dst.devices import ws as m
    elif name == "gauge":
        from dst.devices import gauges as m
    elif name == "disdro":
        from dst.devices import disdro as m
    elif name == "textremote":
        from dst.devices import textremote as m
    elif name == "ncremote":
        from dst.devices import ncremote as m
    elif name == "binremote":
        from dst.devices import binremote as m
    else:
        raise KeyError(name)
    return {d.name: d for d in (c() for c in m.DEVICES)}


def devices(*groups):
    out = {}
    for g in groups:
        out.update(group(g))
    return out
