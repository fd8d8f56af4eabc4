"""Contracts of the specification loader's literal parsing (C21).

Plain Python: the verifier (vc/literals.py) runs `call` on symbolic inputs under vc/pysym.py, the replay runs it on concrete
inputs under the interpreter of the generator. A contract is a set of rules: the call returns only when some rule permits
the input, with exactly the effects of that rule and nothing else changed, and it does return when a rule demands it."""

class In:
    """predicate over the input literal; `may`: inputs the rule permits, `must`: inputs it demands to be accepted"""
    def __init__(s, kind, *a, must=True): s.kind = kind; s.a = a; s.must = must
class Rule:
    def __init__(s, inp, eff, when=None, must=True): s.inp = inp; s.eff = eff; s.when = when; s.demand = must
SAME = object()          # the input itself / the number it writes
ANYV = object()          # unconstrained
class Case:
    def __init__(s, name, anchor, make, rules, kinds=('str', 'int', 'bool', 'none', 'float', 'list', 'dict'), strict_names=None):
        s.name = name; s.anchor = anchor; s.make = make; s.rules = rules; s.kinds = kinds; s.names = strict_names

def kw(k): return In('kw', k)
TSI = dict(none=0, utc=1, gps=2, other=3, any=7)
TSF = {'none': 0, 'samples': 1, 'picoseconds': 2, 'free-running': 3, 'any': 7}
TSM = dict(fine=0, coarse=1, any=7)
SPEC = dict(spectrum=1, time=0)
IDF = dict(word=0, uuid=1)
ACT = {'none': 0, 'dry-run': 1, 'execute': 2}
TCM = {'ignore': 0, 'device': 1, 'late': 2, 'early': 3, 'early-late': 4}
def table(t, f): return [Rule(kw(k), f(v)) for k, v in t.items()]
MODE = {'required': 'Mode.REQUIRED', 'optional': 'Mode.OPTIONAL'}

V = 'vrtgen.parser.value'; P = 'vrtgen.parser.model.prologue'; C = 'vrtgen.parser.model.command'
def fn(name):
    def make(M, st):
        f = getattr(M(V), name); root = {}
        def call(v): root['result'] = f(v)
        return root, call
    return make
def obj(mod, cls, key, pre=None, post=None, others=()):
    """a mapping {neighbour before, key: literal, neighbour after} given to a fresh object in an arbitrary state"""
    def make(M, st):
        o = getattr(M(mod), cls)()
        if pre: pre(M, o, st)
        def call(v):
            m = {}
            for k, x in others[:1]: m[k] = x
            m[key] = v
            for k, x in others[1:]: m[k] = x
            f = getattr(o, 'validate_and_parse_mapping', None) or o.parse_mapping
            f(**m)
        return o, call
    return make
def arbitrary(names, attrs=('enabled', 'required'), at=None):
    def pre(M, o, st):
        o = o if at is None else getattr(o, at)
        for n in names:
            for a in attrs: setattr(getattr(o, n), a, st(f'{n}.{a}'))
    return pre

CIF0 = '''reference_point_id bandwidth if_ref_frequency rf_ref_frequency rf_ref_frequency_offset if_band_offset reference_level gain
over_range_count sample_rate timestamp_adjustment timestamp_calibration_time temperature device_id state_event_indicators signal_data_format
formatted_gps formatted_ins ecef_ephemeris relative_ephemeris ephemeris_ref_id gps_ascii context_association_lists'''.split()
CIF1 = '''phase_offset polarization pointing_vector pointing_vector_structure spatial_scan_type spatial_reference_type beam_width range ebno_ber
threshold compression_point intercept_points snr_noise_figure aux_frequency aux_gain aux_bandwidth array_of_cifs spectrum discrete_io_32
discrete_io_64 health_status v49_spec_compliance version_information buffer_size'''.split()
CIF2 = '''bind cited_sid sibling_sid parent_sid child_sid cited_message_id controllee_id controllee_uuid controller_id controller_uuid
information_source track_id country_code operator_id platform_class platform_instance platform_display ems_device_class ems_device_type
ems_device_instance modulation_class modulation_type function_id mode_id event_id function_priority_id communication_priority_id rf_footprint
rf_footprint_range'''.split()
CIF7 = '''current_value mean_value median_value standard_deviation max_value min_value precision accuracy first_derivative second_derivative
third_derivative probability belief'''.split()
CAMB = 'permit_partial permit_warnings permit_errors req_v req_x req_s req_w req_er'.split()

def enab(n, m): return {f'{n}.enabled': True, f'{n}.required': m == 'required', **({f'{n}.type_.bits': 128, f'{n}.type_.format': 1} if n in ('controllee_uuid', 'controller_uuid') else {})}
def fields(mod, cls, names, prefix='', only_required=False):
    out = []
    for i, n in enumerate(names):
        a = names[(i + 1) % len(names)]; b = names[(i + 5) % len(names)]
        both = {'required': 'required', 'optional': 'optional'}
        oth = [(a, 'required' if only_required else 'optional'), (b, 'required')]
        rules = []
        for m in both:
            eff = {}
            for k, x in [oth[0], (n, m), oth[1]]: eff.update(enab(prefix + k, 'required' if only_required else x))
            rules.append(Rule(kw(m), eff, must=not (only_required and m == 'optional')))
        loose = ('list', 'dict') if n in ('reference_level', 'discrete_io_32', 'discrete_io_64', 'buffer_size') else ()
        out.append(Case(f'{cls}.{n}', f'{mod}:{cls}', obj(mod, cls, n, arbitrary([x for x in names if x not in (a, b)], at=prefix[:-1] or None), others=oth), rules,
                        kinds=tuple(k for k in Case('', '', None, None).kinds if k not in loose)))
    return out

def cases():
    out = []
    res = lambda v: {'result': v}
    for f, t in (('parse_tsi', TSI), ('parse_tsf', TSF), ('parse_tsm', TSM), ('parse_spectrum_or_time', SPEC), ('parse_identifier_format', IDF),
                 ('parse_action_mode', ACT), ('parse_timing_control', TCM), ('parse_enable', MODE)):
        out.append(Case(f, V, fn(f), table(t, res)))
    out.append(Case('parse_entry_size', V, fn('parse_entry_size'),
                    [Rule(In('text', str(n)), res(c)) for n, c in ((8, 1), (16, 2), (32, 4))] + [Rule(In('int', n, n), res(c)) for n, c in ((8, 1), (16, 2), (32, 4))]))
    out.append(Case('parse_oui', V, fn('parse_oui'), [Rule(In('oui'), res(SAME))]))
    # class identifier
    for k in ('packet_code', 'information_code'):
        out.append(Case(f'ClassIdentifier.{k}', P, obj(P, 'ClassIdentifier', k, others=[('oui', 'a0-1B-ff')]),
                        [Rule(In('int', 0, 0xFFFF), {f'{k}.value': SAME, 'oui.value': 0xA01BFF}), Rule(In('none'), {f'{k}.value': None, 'oui.value': 0xA01BFF}, must=False)]))
    out.append(Case('ClassIdentifier.oui', P, obj(P, 'ClassIdentifier', 'oui', others=[('packet_code', 7), ('information_code', 0xFFFF)]),
                    [Rule(In('oui'), {'oui.value': SAME, 'packet_code.value': 7, 'information_code.value': 0xFFFF})]))
    I = 'vrtgen.parser.model.information'
    out.append(Case('InformationClass.code', I, obj(I, 'InformationClass', 'code', others=[('packet_classes', ['A', 'B'])]),
                    [Rule(In('int', 0, 0xFFFF), {'code': SAME, 'packet_classes.values': ['A', 'B']})]))
    # timestamp
    def on(f, e, v): return {f'{f}.enabled': True, f'{f}.required': True, f'{f}.value': v, f'{e}.enabled': True, f'{e}.required': True, 'bits': ANYV}
    out.append(Case('Timestamp.integer', P, obj(P, 'Timestamp', 'integer', others=[('fractional', 'Free-Running')]),
                    table(TSI, lambda v: {**on('tsi', 'integer', v), **on('tsf', 'fractional', 3)})))
    out.append(Case('Timestamp.integer alone', P, obj(P, 'Timestamp', 'integer'), table(TSI, lambda v: on('tsi', 'integer', v))))
    out.append(Case('Timestamp.fractional', P, obj(P, 'Timestamp', 'fractional', others=[('integer', 'GPS')]),
                    table(TSF, lambda v: {**on('tsf', 'fractional', v), **on('tsi', 'integer', 2)})))
    out.append(Case('Timestamp.fractional alone', P, obj(P, 'Timestamp', 'fractional'), table(TSF, lambda v: on('tsf', 'fractional', v))))
    # field enabling
    out += fields('vrtgen.parser.model.cif0', 'CIF0', CIF0) + fields('vrtgen.parser.model.cif1', 'CIF1', CIF1)
    out += fields('vrtgen.parser.model.cif2', 'CIF2', CIF2) + fields('vrtgen.parser.model.cif7', 'CIF7', CIF7, 'attributes.', True)
    # modes of user-defined structures
    for mod, cls in (('vrtgen.parser.model.cif0', 'ReferenceLevel'), ('vrtgen.parser.model.cif1', 'DiscreteIO32'), ('vrtgen.parser.model.cif1', 'DiscreteIO64'), ('vrtgen.parser.model.cif1', 'BufferSize')):
        def pre(cls):
            def p(M, o, st): o.enabled = st('enabled'); o.required = st('required')
            return p
        def mk(mod, cls):
            def make(M, st):
                o = getattr(M(mod), cls)(); o.enabled = st('enabled'); o.required = st('required')
                return o, lambda v: o.validate_and_parse_mapping(mode=v)
            return make
        out.append(Case(f'{cls}.mode', mod, mk(mod, cls), [Rule(kw(m), {'enabled': True, 'required': m == 'required'}) for m in MODE]))
    out.append(Case('IndexList.entry_size', 'vrtgen.parser.model.cif1', obj('vrtgen.parser.model.cif1', 'IndexList', 'entry_size'),
                    [Rule(i, {'entry_size.value': c, 'entries.type_.bits': n, 'template_type': f'uint{n}_t'}) for n, c in ((8, 1), (16, 2), (32, 4)) for i in (In('text', str(n)), In('int', n, n))]))
    D = 'vrtgen.parser.model.data'
    out.append(Case('Trailer.sample_frame', D, obj(D, 'Trailer', 'sample_frame'), [Rule(kw(m), enab('sample_frame', m)) for m in MODE]))
    # packet-level literals
    def packet(mod, cls, key):
        def make(M, st):
            o = getattr(M(mod), cls)()
            return o, lambda v: o._parse_mapping({key: v})
        return make
    hb = lambda f, v: {f'header.{f}.enabled': True, f'header.{f}.required': True, f'header.{f}.value': v}
    out.append(Case('DataPacket.spectrum_or_time', D, obj(D, 'DataPacket', 'spectrum_or_time'),
                    table(SPEC, lambda v: {**hb('spectrum_or_time', v), 'header.not_v49d0.*': ANYV})))
    X = 'vrtgen.parser.model.context'
    out.append(Case('ContextPacket.tsm', X, obj(X, 'ContextPacket', 'tsm'), table(TSM, lambda v: hb('tsm', v))))
    for cls in ('ControlPacket', 'AcknowledgePacket', 'ExtensionControlPacket', 'ExtensionAcknowledgePacket'):
        for k, other in (('controllee_id', 'controller_id'), ('controller_id', 'controllee_id')):
            idf = lambda f, v: {f'{f}.enabled': True, f'{f}.required': True, f'{f}.format': v, f'{f}.bits': (32, 128)[v]}
            out.append(Case(f'{cls}.{k}', C, obj(C, cls, k, others=[(other, 'UUID')]), table(IDF, lambda v: {**idf(k, v), **idf(other, 1)})))
    # control/acknowledge mode
    for i, n in enumerate(CAMB):
        a = CAMB[(i + 3) % 8]; b = CAMB[(i + 1) % 8]
        bo = lambda f, m: {**enab(f, m), f'{f}.value': m == 'required'}
        bb = lambda f, x: {f'{f}.enabled': x, f'{f}.required': x, f'{f}.value': x}
        eff = lambda e: {**bo(a, 'optional'), **e, **bb(b, True)}
        out.append(Case(f'ControlCAM.{n}', C, obj(C, 'ControlCAM', n, arbitrary([x for x in CAMB if x not in (a, b)], ('enabled', 'required', 'value')), others=[(a, 'Optional'), (b, True)]),
                        [Rule(kw(m), eff(bo(n, m))) for m in MODE] + [Rule(In('bool', x), eff(bb(n, x))) for x in (True, False)]))
    for n in ('controllee_format', 'controller_format'):
        out.append(Case(f'ControlCAM.{n}', C, obj(C, 'ControlCAM', n, arbitrary(CAMB, ('enabled', 'required', 'value'))),
                        table(IDF, lambda v: {f'{n}.enabled': True, f'{n}.required': True, f'{n}.value': v})))
    am = lambda v: {'action_mode.enabled': True, 'action_mode.required': True, 'action_mode.value': v}
    ok = lambda st, And, Not: And(st('req_s.value'), *[Not(st(f'{q}.value')) for q in ('req_x', 'req_v', 'req_w', 'req_er')])
    out.append(Case('ControlCAM.action_mode', C, obj(C, 'ControlCAM', 'action_mode', arbitrary(CAMB, ('enabled', 'required', 'value'))),
                    [Rule(kw('none'), am(0), when=ok), Rule(kw('dry-run'), am(1)), Rule(kw('execute'), am(2))] +
                    [Rule(kw(m), {**enab('action_mode', m), 'action_mode.value': ANYV}) for m in MODE]))
    # stream identifiers
    L = 'vrtgen.parser.loader'
    class Loader:
        def __init__(s, v): s.v = v
        def construct_scalar(s, node): return s.v
    def sid(M, st):
        import yaml
        root = {}
        def call(v): root['result'] = M(L).stream_id_constructor(Loader(v), yaml.ScalarNode('!StreamID', ''))
        return root, call
    base = {'result.enabled': True, 'result.required': True, 'result.bits': 32, 'result.*': ANYV}
    out.append(Case('stream_id_constructor', L, sid, [Rule(In('text', ''), {**base, 'result.value': None}), Rule(In('number', 0xFFFFFFFF), {**base, 'result.value': SAME})], kinds=('str',)))
    K = 'vrtgen.parser.model.types.packing'
    def ity(M, st):
        o = M(K).IntegerType(enabled=True, required=True)
        return o, lambda v: o.parse_mapping(bits=v)
    out.append(Case('IntegerType.bits', K, ity, [Rule(In('int', 1, None), {'bits': SAME})]))
    return out

# ---- names of a mapping: an unknown name is refused, a known one acts on its own field
IGNORED = ('packed_0', 'change_indicator', 'timing_control')      # names without effect
class NameCase:
    def __init__(s, name, anchor, mod, cls, value, names, eff=None): s.name = name; s.anchor = anchor; s.mod = mod; s.cls = cls; s.value = value; s.names = names; s.eff = eff
def name_cases():
    out = []
    m0 = 'vrtgen.parser.model.'
    def en(n): return enab(n, 'required')
    for mod, cls, names in ((m0 + 'cif0', 'CIF0', CIF0 + ['change_indicator', 'packed_0']), (m0 + 'cif1', 'CIF1', CIF1 + ['packed_0']), (m0 + 'cif2', 'CIF2', CIF2 + ['packed_0'])):
        out.append(NameCase(f'{cls} names', mod, mod, cls, 'required', names, en))
    out.append(NameCase('CIF7 names', m0 + 'cif7', m0 + 'cif7', 'CIF7', 'required', CIF7 + ['packed_0'], lambda n: en('attributes.' + n)))
    out.append(NameCase('ControlCAM names', C, C, 'ControlCAM', True, CAMB + ['packed_0', 'timing_control'], lambda n: {} if n not in CAMB else {f'{n}.enabled': True, f'{n}.required': True, f'{n}.value': True}))
    out.append(NameCase('ClassIdentifier names', P, P, 'ClassIdentifier', 5, ['packet_code', 'information_code'], lambda n: {f'{n}.value': 5}))
    out.append(NameCase('Timestamp names', P, P, 'Timestamp', 'other', ['integer'], lambda n: {'*': ANYV}))
    return out

# ---- concrete evaluation (replay)
import re
def snap(o, path='', out=None, seen=None):
    out = {} if out is None else out; seen = set() if seen is None else seen
    if isinstance(o, dict):
        for k, v in o.items(): snap(v, f'{path}.{k}' if path else str(k), out, seen)
        return out
    d = getattr(o, '__dict__', None)
    import enum
    if d is not None and not isinstance(o, (type, enum.Enum)) and not getattr(o, '_vx', False):
        if id(o) in seen: out[path + '@'] = 'shared'; return out
        seen.add(id(o))
        for k, v in d.items(): snap(v, f'{path}.{k}' if path else k, out, seen)
        return out
    if isinstance(o, enum.Enum): o = int(o) if isinstance(o, int) else f'{type(o).__name__}.{o.name}'
    elif isinstance(o, type): o = 'class ' + o.__name__
    out[path] = o
    return out
def covered(path, eff):
    if path in eff: return eff[path]
    for k, v in eff.items():
        if k.endswith('*') and path.startswith(k[:-1]): return v
    return None
def matches(kind, inp, v):
    """(permitted, demanded, number) for a concrete input"""
    a = inp.a
    if inp.kind == 'kw': return isinstance(v, str) and v.casefold() == a[0], isinstance(v, str) and v.isascii() and v.lower() == a[0], None
    if inp.kind == 'text': return (isinstance(v, str) and v == a[0],) * 2 + (None,)
    if inp.kind == 'none': return (v is None,) * 2 + (None,)
    if inp.kind == 'bool': return (v is a[0],) * 2 + (None,)
    if inp.kind == 'int':
        ok = type(v) is int and a[0] <= v and (a[1] is None or v <= a[1]); return ok, ok, v
    if inp.kind == 'oui':
        ok = isinstance(v, str) and re.fullmatch('[0-9a-fA-F]{2}-[0-9a-fA-F]{2}-[0-9a-fA-F]{2}', v) is not None
        n = int(v.replace('-', ''), 16) if ok else None
        return ok and n != 0x12A2, ok and n != 0x12A2, n
    if inp.kind == 'number':
        if not isinstance(v, str): return False, False, None
        if re.fullmatch('[0-9]+', v): n = int(v); return n <= a[0], n <= a[0], n
        if re.fullmatch('0x[0-9a-fA-F]+', v): n = int(v, 16); return n <= a[0], n <= a[0], n
        try: n = int(v.strip(), 16 if v.strip()[:2] in ('0x', '0X') else 10)
        except ValueError: return False, False, None
        return 0 <= n <= a[0], False, n
    raise KeyError(inp.kind)
def decide(case, M, v, state):
    """None when the real code keeps the contract on the concrete input, else what is wrong"""
    st = lambda n: state.get(n, False)
    root, call = case.make(M, st); before = snap(root)
    try: call(v); out = 'return'; exc = None
    except Exception as x: out = 'raise'; exc = x
    after = snap(root)
    And = lambda *x: all(x); Not = lambda x: not x
    if out == 'raise':
        for r in case.rules:
            may, must, n = matches(None, r.inp, v)
            if must and r.demand and r.inp.must and (r.when is None or r.when(st, And, Not)): return f'refused with {type(exc).__name__}: {exc}; it must be accepted'
        return None
    why = 'accepted; no literal of this form denotes a value'
    for r in case.rules:
        may, must, n = matches(None, r.inp, v)
        if not may or r.when is not None and not r.when(st, And, Not): continue
        why = None
        for p in sorted(set(before) | set(after)):
            e = covered(p, r.eff)
            if e is ANYV and p not in r.eff or p in r.eff and r.eff[p] is ANYV: continue
            w = n if e is SAME else e
            if p in r.eff:
                g = after.get(p, 'missing')
                if not (g == w and (isinstance(w, bool) == isinstance(g, bool))): why = f'{p} is {g!r}, expected {w!r}'; break
            elif before.get(p, 'missing') != after.get(p, 'missing'): why = f'{p} changed from {before.get(p)!r} to {after.get(p)!r}'; break
        if why is None:
            for p in r.eff:
                if not p.endswith('*') and p not in after and r.eff[p] is not ANYV: why = f'{p} is missing'
        if why is None: return None
    return why
def decide_name(case, M, name):
    o = getattr(M(case.mod), case.cls)(); before = snap(o)
    try: (getattr(o, 'validate_and_parse_mapping', None) or o.parse_mapping)(**{name: case.value})
    except Exception as x: return f'refused with {type(x).__name__}: {x}' if name in case.names and name not in IGNORED else None
    after = snap(o)
    if name not in case.names: return 'accepted; the name denotes no field'
    eff = case.eff(name)
    for p in sorted(set(before) | set(after)):
        e = covered(p, eff)
        if e is ANYV: continue
        if e is not None:
            if after.get(p) != e: return f'{p} is {after.get(p)!r}, expected {e!r}'
        elif before.get(p) != after.get(p): return f'{p} changed from {before.get(p)!r} to {after.get(p)!r}'
    return None

def replay(which, v, state):
    import importlib
    if which.endswith(' names'):
        c = next(c for c in name_cases() if c.name == which); return decide_name(c, importlib.import_module, v)
    c = next(c for c in cases() if c.name == which); return decide(c, importlib.import_module, v, state)
def battery(case):
    """concrete inputs for a case the verifier gave no verdict on"""
    ks = [r.inp.a[0] for r in case.rules if r.inp.kind == 'kw']
    vs = []
    for k in ks: vs += [k, k.upper(), k.title(), k[0].upper() + k[1:], k + ' ', ' ' + k, k + '\n', k[:-1], k + 's', k.replace('-', ''), k.replace('-', '_'), k.replace('-', ' ')]
    vs += ['', 'x', 'none', 'true', 'false', 'disabled', '00-12-34', 'aB-cD-eF', '00-12-A2', '00-12-a2', '0x-12-34', '00-12-34\n', 'ZZ-00-00', '001234', '00:12:34', '123', '0x10', '0x', '4294967295', '4294967296', '-1', '0xFFFFFFFF',
           '0x100000000', '1.5', '8', '16', '32', '64', 0, 1, 2, 8, 16, 32, 64, 5, 0xFFFF, 0x10000, -1, 1 << 40, True, False, None, 1.0, 8.0, 3.7, ['a'], {'a': 1}]
    kind = lambda v: 'none' if v is None else 'bool' if isinstance(v, bool) else type(v).__name__
    return [v for v in vs if kind(v) in case.kinds]
