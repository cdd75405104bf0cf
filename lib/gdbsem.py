"""gdbstub-specific vocabulary of the abstract interpreter: which callees are observable effects (calls on
the user's Target / Connection), which are gates (capability queries), which emit reply bytes."""
import os
import sys
sys.path.insert(0, os.path.dirname(__file__))
import absint
import models
from absint import *
from models import *

RW = 'protocol::response_writer::ResponseWriter'
TOKENS = {
    'write_str': ('str', [1]), 'write_hex_buf': ('hexbuf', [1]), 'write_binary': ('binary', [1]),
    'write_num': ('num', [1]), 'write_dec': ('dec', [1]), 'write_specific_thread_id': ('tid', [1]),
    'write': ('byte', [1]), 'write_hex': ('hex', [1]), 'flush': ('flush', []), 'write_specific_id_kind': ('idkind', [1]),
}


def is_rw(cal):
    return cal['path'].startswith(RW)


def tokens(cal):
    if is_rw(cal) and cal['name'] in TOKENS:
        return TOKENS[cal['name']]
    return None


def is_gate_name(nm):
    return nm.startswith(('support_', 'use_', 'guard_')) or nm in ('base_ops', 'resume_ops')


def events(cal):
    tr = cal.get('trait') or ''
    if cal.get('kind') not in ('none', 'virtual'):
        return None
    nm = cal['name']
    if tr.startswith('target::'):
        short = tr.split('::')[-1] + '.' + nm
        if is_gate_name(nm):
            return ('pure', short, 1)
        return ('effect', short, 1)
    if tr.startswith('arch::'):
        short = tr.split('::')[-1] + '.' + nm
        if nm in ('gdb_serialize', 'gdb_deserialize'):
            return ('effect', short, 0)
        return ('pure', short, 0)
    if tr.startswith('conn::'):
        return ('effect', 'conn.' + nm, 1, 'conn')
    return None


ATOMS = {
    'protocol::common::hex::decode_hex': 'decode_hex',
    'protocol::common::hex::decode_hex_buf': 'decode_hex_buf',
    'protocol::common::hex::decode_bin_buf': 'decode_bin_buf',
    'protocol::common::hex::is_hex': 'is_hex',
    "protocol::commands::_vCont::VContKind::<'_>::from_bytes": 'vcont_kind',
    '<protocol::common::thread_id::ThreadId as std::convert::TryFrom<&[u8]>>::try_from': 'thread_id',
    '<protocol::common::thread_id::IdKind as std::convert::TryFrom<&[u8]>>::try_from': 'id_kind',
}


def atoms(cal):
    a = ATOMS.get(cal['path']) or ATOMS.get(cal.get('key'))
    if a:
        return a
    if (cal.get('trait') or '').startswith('internal::') and cal.get('kind') in ('none', 'virtual'):
        return cal['name']
    return None


USE_RLE = ('gate', 'Target.use_rle')
WRITERS = set()      # (function, value of the second argument, what is known of use_rle) of every ResponseWriter::new interpreted


def rw_new(I, st, fr, cal, a, tys, t):
    WRITERS.add((fr.fn.path, I.canon(st, a[1]), st.facts.get(USE_RLE)))
    return [['ret', st, ('sym', 'rw', I.canon(st, a[1]))]]


MODELS = {
    RW + "::<'a, C>::new": rw_new,
    RW + "::<'a, C>::as_conn": lambda I, st, fr, cal, a, tys, t: [['ret', st, ('sym', 'conn')]],
}


def make(crate, **kw):
    return Interp(crate, events=events, tokens=tokens, atoms=atoms, models=MODELS, **kw)
