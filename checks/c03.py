"""C03: layout, sub paths, extract and match."""
import asmdrive
from c01 import types


def run(ck):
    ts = types(ck, 1500 if ck.thorough else 450)
    evs = [asmdrive.place_event(ck.rng, d, cap=150 if ck.thorough else 12, style=s) for d, s in ts]
    ck.validate('AsmTrace', evs, label='place', chunk=max(20, len(evs) // 6 + 1))
    ck.notes['paths'] = sum(len(v['paths']) for e in evs for v in e['vals'])
