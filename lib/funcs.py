"""Behavioural summaries of individual functions of the library (state machine, event loop, conversions, builder, ...)."""
import sys
import gdbsem
import mir
import summ
from absint import *

SM = 'stub::state_machine::GdbStubStateMachineInner::'


def find(crate, pred):
    """the local generic definitions (not the instantiated copies) whose key satisfies pred"""
    return [f for k, f in crate.fns.items() if f.local and pred(k)]


def find_key(crate, key):
    f = crate.fns.get(key)
    return f if f is not None and f.local else None


def events_with(extra):
    def ev(cal):
        p = cal['path']
        for suffix, name, skip in extra:
            if p.endswith(suffix):
                return ('effect', name, skip)
        return gdbsem.events(cal)
    return ev


def run(crate, f, args, extra=(), models=None, st=None, tokens=None, **kw):
    I = Interp(crate, events=events_with(extra), tokens=tokens or gdbsem.tokens, atoms=gdbsem.atoms,
               models=dict(gdbsem.MODELS, **(models or {})), **kw)
    outs = I.run_fn(f, args, st or State(), 0)
    return I, [(k, s, None if k == 'panic' else v) for k, s, v in outs]
