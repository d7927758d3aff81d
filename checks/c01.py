"""C01: codec losslessness of both assemblers."""
import adt, asmdrive


def gen_cfg(ck):
    return ('SPECIFICATION Spec\nCONSTANTS Depth2 = %s MaxArity = %d\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\n'
            % ('TRUE', 4 if ck.thorough else 3))


def _bv(w, s=None):
    return dict(k='bv', w=w, **({'s': s} if s else {}))


_B = dict(k='bit')
# signed / unsigned leaves in every position; the same type several times in a union; deep nesting
FIXED = [
    dict(k='prod', ts=[_bv(3, 's'), _bv(2)]), dict(k='prod', ts=[_bv(2), _bv(3, 's'), _B]),
    dict(k='tuple', ts=[_bv(2, 'u'), _bv(2, 's'), _bv(1)]), dict(k='prod', ts=[_bv(4, 's')]),
    dict(k='sum', ts=[_bv(3, 's'), _bv(2), _B]), dict(k='tu', ts=[_bv(2, 's'), _bv(2, 'u'), _bv(2, 's')]),
    dict(k='tu', ts=[_B, _bv(3), _B, _bv(3), _B]), dict(k='tu', ts=[_bv(2)] * 6),
    dict(k='prod', ts=[dict(k='sum', ts=[_bv(1), _bv(4)]), dict(k='tu', ts=[_bv(3), _B]), _bv(2)]),
    dict(k='sum', ts=[dict(k='prod', ts=[_bv(2), dict(k='sum', ts=[_B, _bv(3)])]), dict(k='enum', codes=[0, 1, 2, 5, 6, 7])]),
    dict(k='prod', ts=[_B] * 5), dict(k='tuple', ts=[dict(k='tuple', ts=[_B, _bv(2)]), _bv(2), dict(k='tuple', ts=[_bv(2), _B])]),
]


def types(ck, n_rand, maxw=24, enum_cap=None, zero=False):
    """bounded-exhaustive types enumerated by TLC, then random deeper ones"""
    cases = ck.generate('ADTGen', gen_cfg(ck), workers=4)
    cases.sort(key=lambda d: repr(d))
    ck.notes['types_from_spec'] = len(cases)
    if enum_cap and len(cases) > enum_cap:
        cases = ck.rng.sample(cases, enum_cap)
    out = [(d, 0) for d in cases] + [(d, k % 2) for k, d in enumerate(FIXED)]
    n = 0
    while n < n_rand:
        d = adt.rand_type(ck.rng, ck.rng.choice([1, 2, 2, 3, 3]))
        if adt.width(d) > maxw:
            continue
        out.append((d, ck.rng.randrange(2)))
        n += 1
    ck.notes['types_total'] = len(out)
    return out


def zero_width(d):
    """has the type a sub-element that carries no information (width 0)?"""
    return adt.width(d) == 0 or any(zero_width(x) for x in d.get('ts', []))


def run(ck):
    ts = types(ck, 1500 if ck.thorough else 300)
    ts = [(d, s) for d, s in ts]
    evs = [asmdrive.codec_event(ck.rng, d, cap=300 if ck.thorough else 40, style=s) for d, s in ts]
    ck.validate('AsmTrace', evs, label='codec', chunk=max(20, len(evs) // 6 + 1))
    ck.notes['values'] = sum(len(e['vals']) for e in evs)
