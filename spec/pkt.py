"""Independent specification of generated packet classes: what a packet specification (YAML) means on the wire,
written from VITA 49.2-2017 and the vrtgen documentation.  A PSpec is both the source of the YAML handed to the
generator and the oracle for the class it generates."""
from .lib import IF0, IF1, IF2, P, CLASSES

class FT:
    """kind: u (unsigned integer of the API type ct), s, fix (signed fixed point, radix R), st (structure: C++ class)
    reserved = reserved bytes in front of the value"""
    def __init__(s, kind, size, ct=None, R=None, cpp=None, reserved=0, cast=None):
        s.kind = kind; s.size = size; s.ct = ct; s.R = R; s.cpp = cpp; s.reserved = reserved; s.cast = cast
    total = property(lambda s: s.size + s.reserved)
def U32(): return FT('u', 4, 'uint32_t')
def FX64(): return FT('fix', 8, 'long double', 20)
def FX16(R): return FT('fix', 2, 'double', R, reserved=2)
def S(cpp, n): return FT('st', n, cpp=P + cpp)
UUID = lambda: FT('st', 16, cpp='vrtgen::UUID')
TYPES = {0: dict(reference_point_id=U32(), bandwidth=FX64(), if_ref_frequency=FX64(), rf_ref_frequency=FX64(), rf_ref_frequency_offset=FX64(),
                 if_band_offset=FX64(), reference_level=FX16(7), gain=S('Gain', 4), over_range_count=U32(), sample_rate=FX64(),
                 timestamp_adjustment=FT('s', 8, 'int64_t'), timestamp_calibration_time=U32(), temperature=FX16(6), device_id=S('DeviceIdentifier', 8),
                 state_event_indicators=S('StateEventIndicators', 4), signal_data_format=S('PayloadFormat', 8), formatted_gps=S('Geolocation', 44),
                 formatted_ins=S('Geolocation', 44), ecef_ephemeris=S('Ephemeris', 52), relative_ephemeris=S('Ephemeris', 52), ephemeris_ref_id=U32()),
         1: dict(phase_offset=FX16(7), polarization=S('Polarization', 4), pointing_vector=S('PointingVector', 4), spatial_scan_type=FT('u', 2, 'uint16_t', reserved=2),
                 beam_width=S('BeamWidth', 4), range=FT('fix', 4, 'long double', 6), ebno_ber=S('EbNoBER', 4), threshold=S('Threshold', 4), compression_point=FX16(7),
                 intercept_points=S('InterceptPoints', 4), snr_noise_figure=S('SNRNoise', 4), aux_frequency=FX64(), aux_gain=S('Gain', 4), aux_bandwidth=FX64(),
                 spectrum=S('Spectrum', 52), discrete_io_32=U32(), discrete_io_64=FT('u', 8, 'uint64_t'), health_status=FT('u', 2, 'uint16_t', reserved=2),
                 v49_spec_compliance=FT('u', 4, 'uint32_t', cast=P + 'V49StandardCompliance'), version_information=S('VersionInformation', 4), buffer_size=FX64()),
         2: {k: (UUID() if k.endswith('uuid') else U32()) for k in IF2}}
BITS = {0: dict(IF0, cif1_enable=1, cif2_enable=2, cif3_enable=3, cif7_enable=7), 1: IF1, 2: IF2}
DIFI = dict(reference_level=S('difi::ReferenceLevel', 4), buffer_size=S('difi::BufferSize', 12))
YNAME = dict(operator_id='operator_id')
DEFAULTS = {c.cpp: c.default for c in CLASSES}
DEFAULTS['vrtgen::UUID'] = bytes(16)

class Field:
    """a field of a CIF in a packet specification.  ud: list of (name, what) sub-fields of a user-defined discrete I/O word"""
    def __init__(s, cif, name, req, difi=False, ud=None):
        s.cif = cif; s.name = name; s.req = req; s.difi = difi; s.ud = ud
        s.t = DIFI[name] if difi else TYPES[cif][name]
        if ud is not None: s.t = FT('st', s.t.size, cpp=None)
        s.bit = BITS[cif][name]
    struct = property(lambda s: s.t.kind == 'st')
    def default(s):
        if s.struct: return DEFAULTS.get(s.t.cpp, bytes(s.t.size))
        return bytes(s.t.size)

def snake(n):
    o = ''
    for i, c in enumerate(n):
        if c.isupper() and i: o += '_'
        o += c.lower()
    return o

TSI = dict(none=0, utc=1, gps=2, other=3); TSF = dict(none=0, samples=1, picoseconds=2, **{'free-running': 3})
class PSpec:
    def __init__(s, name, kind, req=(), opt=(), stream=None, class_id=None, tsi=None, tsf=None, tsm=None, ext=False, difi=(), ud=None, cam=None,
                 controllee=None, controller=None, spectrum=None, trailer=None, ack=None, info=None, inc=False, acked=False):
        s.yclass = class_id; s.info = info; s.inc = inc; s.acked = acked; s.multi = bool(info) and len(info) > 1
        if info: class_id = dict(class_id, information_code=info[0])
        s.name = name; s.kind = kind; s.ext = ext; s.stream = stream; s.class_id = class_id; s.tsi = tsi; s.tsf = tsf; s.tsm = tsm
        s.cam = cam; s.controllee = controllee; s.controller = controller; s.spectrum = spectrum; s.trailer = trailer; s.ack = ack
        ud = ud or {}; s.udw = ud
        F = []
        for cif in (0, 1, 2):
            names = [n for n in list(req) + list(opt) if n in TYPES[cif]]
            for n in sorted(names, key=lambda n: -BITS[cif][n]):
                F.append(Field(cif, n, n in req, n in difi, ud.get(n)))
        assert len(F) == len(req) + len(opt), (name, set(req) | set(opt) - {f.name for f in F})
        s.fields = F
        for f in F:
            if f.ud is not None: f.t.cpp = f'X_ns::packets::{snake(name)}::structs::DiscreteIO{f.t.size * 8}'
        s.cpp = 'X_ns::packets::' + name + (ack or '').upper(); s.file = snake(name)
        s.has_cif = kind in ('context', 'control') and ack != 'vx'
        s.warn = ack == 'vx' and (cam or {}).get('req_w') is True; s.err = ack == 'vx' and (cam or {}).get('req_er') is True
    def words(s):
        """indicator words, in wire order: (key, accessor, always present)"""
        if s.has_cif: return [(c, f'cif_{c}', c == 0 or s.cif_req(c)) for c in (0, 1, 2) if s.cif_used(c)]
        return [(k + str(c), f'{k}if_{c}', False) for k, on in (('w', s.warn), ('e', s.err)) if on for c in (0, 1, 2) if c == 0 or s.cif_used(c)]
    def weight(s):
        if s.ack == 'vx': return 3 ** (len(s.fields) * (s.warn + s.err))
        return len(s.fields) + 4 * sum(not f.req for f in s.fields) + 2 ** sum(not f.req and f.struct for f in s.fields)
    def cif_fields(s, c): return [f for f in s.fields if f.cif == c]
    def cif_used(s, c): return c == 0 and s.has_cif or bool(s.cif_fields(c))
    def cif_req(s, c): return c == 0 or any(f.req for f in s.cif_fields(c))
    opt = property(lambda s: [f for f in s.fields if not f.req])
    # ---- YAML
    def yaml(s):
        o = [f'{"Ctl" if s.ack else ""}{s.name}: !' + ('Extension' if s.ext else '') + dict(data='Data', context='Context', control='Control')[s.kind]]
        if s.stream is not None:
            if isinstance(s.stream, list):
                o.append('  stream_id: !StreamID')
                for n, b in s.stream: o.append(f'    {n}: !IntegerType\n      bits: {b}')
            else: o.append('  stream_id: !StreamID' + ('' if s.stream == 'u32' else f' 0x{s.stream:08x}'))
        if s.class_id:
            o.append('  class_id: !ClassID')
            for k, v in s.yclass.items(): o.append(f'    {k}: ' + ('-'.join(f'{v:06x}'[i:i + 2] for i in (0, 2, 4)) if k == 'oui' else hex(v)))
        if s.tsi or s.tsf:
            o.append('  timestamp: !Timestamp')
            if s.tsi: o.append(f'    integer: {s.tsi}')
            if s.tsf: o.append(f'    fractional: {s.tsf}')
        if s.tsm: o.append(f'  tsm: {s.tsm}')
        if s.spectrum: o.append(f'  spectrum_or_time: {s.spectrum}')
        if s.controllee: o.append(f'  controllee_id: {s.controllee}')
        if s.controller: o.append(f'  controller_id: {s.controller}')
        if s.cam:
            o.append('  cam: !ControlAcknowledgeMode')
            for k, v in s.cam.items(): o.append(f'    {k}: ' + (str(v).lower()))
        for c in (0, 1, 2):
            fs = s.cif_fields(c)
            if not fs: continue
            o.append(f'  cif_{c}: !CIF{c}')
            for f in fs:
                m = 'required' if f.req else 'optional'
                if f.difi: o.append(f'    {f.name}: !DIFI1p2' + ('ReferenceLevel' if f.name == 'reference_level' else 'BufferSize') + f'\n      mode: {m}')
                elif f.ud is not None:
                    o.append(f'    {f.name}: !DiscreteIO{f.t.size * 8}\n      mode: {m}')
                    for n, w in f.ud:
                        if isinstance(w, list): o.append(f'      {n}: !!seq'); o += [f'        - {x}' for x in w]
                        else: o.append(f'      {n}: ' + (f'!!int {w}' if isinstance(w, int) else w))
                else: o.append(f'    {f.name}: {m}')
        if s.trailer is not None:
            o.append('  trailer: !Trailer')
            for n, w in s.trailer:
                if isinstance(w, list): o.append(f'    {n}: !!seq'); o += [f'      - {x}' for x in w]
                else: o.append(f'    {n}: {w}')
        if s.ack: o += [f'{s.name}: !' + ('Extension' if s.ext else '') + 'Ack', f'  responds_to: Ctl{s.name}']
        if s.acked: o += [f'Ack{s.name}: !' + ('Extension' if s.ext else '') + 'Ack', f'  responds_to: {s.name}']
        if s.inc or s.info:
            # other classes around this one: an unlisted entry, information classes of their own, an included file
            x = ['.hidden: 1'] + (['include:', '  - inc.yaml'] if s.inc else [])
            y = ['OthA: !Data', '  class_id: !ClassID', '    oui: 65-43-21', '    information_code: 0x7777', 'OthB: !Context', '  stream_id: !StreamID', '  class_id: !ClassID', '    oui: 65-43-21']
            z = []
            if s.info:
                z = ['IOA: !InformationClass', '  code: 0x9999', '  packet_classes: [OthA]']
                for k, c in enumerate(s.info): z += [f'Inf{k}: !InformationClass', '  packet_classes:'] + ([f'    - Ctl{s.name}'] if s.ack else []) + ([f'    - Ack{s.name}'] if s.acked else []) + [f'    - {s.name}'] + (['    - OthB'] if k == 0 else []) + [f'  code: {hex(c)}']
                z += ['IOB: !InformationClass', '  packet_classes: [OthB]', '  code: 0x5555']
            if s.inc: return '\n'.join(x + y[:4] + z) .replace('OthB', 'OthA') .replace('IOB', 'IOC') + '\n#@file inc.yaml\n' + '\n'.join(o) + '\n'
            o = x + y[:4] + o + y[4:] + z
        return '\n'.join(o) + '\n'
    # ---- wire layout
    def packet_type(s):
        return {'data': 1 if s.stream is not None else 0, 'context': 4, 'control': 6}[s.kind] + (1 if s.ext else 0)
    def has_stream(s): return s.kind != 'data' or s.stream is not None
    ind_only = property(lambda s: s.kind == 'control' and not s.ack and (s.cam or {}).get('action_mode') not in ('execute', 'dry-run'))
    def cif12(s): return s.cif_used(1) or s.cif_used(2)

# ---- the corpus: every field type once as optional and once as required, with varying neighbours and prologues
CORPUS = []
def pk(*a, **k): CORPUS.append(PSpec(*a, **k)); return CORPUS[-1]
CI = dict(oui=0x123456, packet_code=0x1234)
pk('CtxA', 'context', req=['device_id', 'over_range_count'], opt=['bandwidth', 'temperature', 'gain'], stream='u32', class_id=CI, tsi='utc', tsf='picoseconds')
pk('CtxB', 'context', req=['version_information', 'state_event_indicators'], opt=['reference_point_id', 'if_ref_frequency', 'reference_level', 'range'],
   stream=0xdeadbeef, class_id=dict(oui=0xabcdef, information_code=0x1122), tsi='any', tsf='any', tsm='any')

pk('DatA', 'data', stream='u32', class_id=CI, tsi='utc', tsf='any', trailer=[('sample_frame', 'required')])
pk('DatB', 'data', tsi='any', spectrum='spectrum')
pk('DatC', 'data', class_id=dict(oui=0x123456), trailer=[('user_defined1', 'enable_indicator'), ('user_defined_en', ['a', 'b', 'c'])])
pk('DatD', 'data', stream=[('aa', 12)], trailer=[])
pk('DatE', 'data', spectrum='time')


# control/acknowledge mode of commands: what is fixed by the specification, what can be set; (most significant bit, width, value)
CAMBITS = dict(controllee_enable=31, controllee_format=30, controller_enable=29, controller_format=28, permit_partial=27, permit_warnings=26, permit_errors=25,
               req_v=20, req_x=19, req_s=18, req_w=17, req_er=16)
ACTION = {'none': 0, 'dry-run': 1, 'execute': 2}
def CAM_FIXED(sp):
    o = []
    for who in ('controllee', 'controller'):
        f = getattr(sp, who)
        if f: o += [(CAMBITS[who + '_enable'], 1, 1), (CAMBITS[who + '_format'], 1, int(f == 'uuid'))]
    if sp.ack == 's': o.append((18, 1, 1))
    for k, v in (sp.cam or {}).items():
        if sp.ack and k.startswith('req_'): continue
        if k == 'action_mode': o.append((24, 2, ACTION[v]))
        elif v in (True, 'required'): o.append((CAMBITS[k], 1, 1))
    return o
def CAM_SETTABLE(sp):
    o = [('timing_control', 3, 14, P + 'TimestampControlMode')]
    if sp.ack:
        o += [('partial_action', 1, 11, 'bool'), ('scheduled_or_executed', 1, 10, 'bool')]
        if sp.ack == 'vx': o += [('ack_' + k, 1, CAMBITS['req_' + k], 'bool') for k in 'vx' if (sp.cam or {}).get('req_' + k)]
        return o
    for k in ('req_v', 'req_x', 'req_s'):
        if (sp.cam or {}).get(k) == 'optional': o.append((k, 1, CAMBITS[k], 'bool'))
    return o
def trailer_ud(sp): return any(n != 'sample_frame' for n, _ in sp.trailer)
def data_not_v49d0(sp): return sp.spectrum == 'spectrum' or sp.trailer is not None and ('sample_frame', 'required') in sp.trailer

# commands
pk('CtlA', 'control', req=['bandwidth', 'gain'], opt=['sample_rate', 'temperature', 'device_id'], stream='u32', class_id=CI, tsi='utc', tsf='picoseconds', controllee='word', controller='uuid',
   cam=dict(req_s=True, action_mode='none', permit_partial=True))
pk('CtlB', 'control', req=['bandwidth', 'gain'], opt=['rf_ref_frequency', 'state_event_indicators', 'phase_offset'], stream='u32', controllee='uuid', cam=dict(action_mode='execute', req_v='optional', req_x='required', permit_warnings=True))
pk('CtlC', 'control', opt=['polarization', 'spectrum', 'controllee_id'], stream=[('aa', 12)], cam=dict(action_mode='dry-run', req_s='optional', req_x='optional', req_w=True, req_er=True, permit_errors=True))
pk('CtlD', 'control', req=['range', 'cited_sid'], opt=['over_range_count', 'ebno_ber', 'modulation_type'], stream=0x80000001, class_id=dict(oui=0xabcdef, information_code=0x1122), tsi='any', tsf='any', controller='word',
   cam=dict(req_s=True, action_mode='none'))
pk('CtlE', 'control', opt=['reference_point_id', 'timestamp_adjustment', 'controllee_uuid'], stream='u32', tsi='gps', controllee='word', controller='word', ext=True, cam=dict(action_mode='execute', req_v='optional', req_s='optional', req_er='required'))
pk('CtlF', 'control', req=['discrete_io_32', 'function_id'], opt=[], stream='u32', tsf='samples', controller='uuid', cam=dict(action_mode='execute'))
pk('CtlG', 'control', opt=['phase_offset', 'spectrum', 'function_id'], stream='u32', ext=True, cam=dict(action_mode='execute', req_s='optional'))

# every field of the context indicator words (other than those of variable size) as optional and as required, among varying neighbours
def _contexts(G=20):
    allf = [(c, n) for c in (0, 1, 2) for n in sorted(TYPES[c], key=lambda n: -BITS[c][n])]
    sid = ['u32', 0x01020304, [('aa', 12)]]; ts = [(None, None), ('utc', 'picoseconds'), ('gps', None), ('any', 'samples'), (None, 'free-running'), ('other', 'any'), ('utc', 'none')]
    st = [f for f in allf if TYPES[f[0]][f[1]].kind == 'st']; sc = [f for f in allf if f not in st]
    opt = [[] for _ in range(G)]; req = [[] for _ in range(G)]
    for i, f in enumerate(st): opt[i % G].append(f)
    for f in sc: min(reversed(opt), key=lambda o: 3 ** sum(x in st for x in o) * 2 ** sum(x not in st for x in o)).append(f)
    for i, f in enumerate(allf):
        ks = [k for k in range(G) if (f[0] == 0 or k % 3 == f[0]) and f not in opt[k]]
        req[min(ks, key=lambda k: (sum(x[0] == f[0] for x in req[k]), (k * 7 + i) % G))].append(f)
    for k in range(G):
        pk(f'Ctx{k}', 'context', req=[n for _, n in req[k]], opt=[n for _, n in opt[k]], stream=sid[k % 3], class_id=CI if k % 2 else None, tsi=ts[k % 7][0], tsf=ts[k % 7][1],
           tsm=[None, 'coarse', 'any', 'fine'][k % 4], ext=k % 5 == 4)
_contexts()

# acknowledge packets: of kind "query state" (s), and validation/execution acknowledgements with warnings and errors (vx)
pk('AckSA', 'control', ack='s', req=['bandwidth', 'gain'], opt=['sample_rate', 'temperature', 'device_id', 'phase_offset'], stream='u32', class_id=CI, tsi='utc', tsf='picoseconds', controllee='word', controller='uuid',
   cam=dict(req_s=True, action_mode='none', permit_partial=True))
pk('AckSB', 'control', ack='s', req=['range'], opt=['gain', 'cited_sid', 'rf_ref_frequency'], stream=0x80000001, tsf='samples', cam=dict(action_mode='execute', req_s='optional', req_x='optional'))
pk('AckVA', 'control', ack='vx', req=['bandwidth'], opt=['sample_rate'], stream='u32', class_id=CI, tsi='utc', tsf='picoseconds', controllee='word', controller='uuid', cam=dict(action_mode='execute', permit_errors=True, permit_warnings=True, req_v='optional', req_x=True, req_w=True, req_er=True))

def _acks():
    allf = [n for c in (0, 1, 2) for n in sorted(TYPES[c], key=lambda n: -BITS[c][n])]
    h = (len(allf) + 1) // 2
    def vx(k, names, kind):
        pk(f'Ack{kind}{k}', 'control', ack='vx', req=names[:1], opt=names[1:], stream=['u32', 0x01020304][k // 2 % 2], class_id=[None, CI, dict(oui=0xabcdef, information_code=0x1122)][k % 3],
           tsi=[None, 'utc', 'any'][k % 3], tsf=['any', None, 'samples', 'picoseconds'][k % 4], controllee=[None, 'word', 'uuid'][k % 3], controller=[None, 'uuid', None, 'word', None][k % 5], ext=k % 7 == 6,
           cam={'action_mode': ['execute', 'dry-run'][k % 2], **({'req_v': ['optional', True][k % 3]} if k % 3 != 2 else {}), 'req_x': [True, 'optional'][k % 2], **{w: True for w, c in (('req_w', 'WB'), ('req_er', 'EB')) if kind in c}})
    for k in range(h):
        names = allf[k::h]
        vx(k, names[::-1] if k % 3 == 0 else names, 'WE'[k // 2 % 2])
    for k, (names, kind) in enumerate([(('if_band_offset', 'aux_gain', 'platform_class'), 'W'), (('mode_id', 'gain', 'bandwidth'), 'E'), (('range', 'spectrum', 'event_id'), 'W'), (('phase_offset',), 'B'), (('cited_sid',), 'B'),
                                       (('gain', 'function_id'), 'B'), (('rf_ref_frequency_offset', 'ephemeris_ref_id'), 'B')]): vx(100 + k, list(names), kind)
_acks()

# classes listed in information classes (which give the information code; several of them leave it open), and included files
pk('InfA', 'data', stream='u32', class_id=CI, trailer=[('sample_frame', 'required')], info=[0x2233], inc=True)
pk('InfB', 'context', opt=['bandwidth'], stream='u32', class_id=CI, info=[0x4455, 0x8002])
pk('InfC', 'control', opt=['gain'], stream='u32', class_id=dict(oui=0xabcdef, information_code=0x1122), inc=True, controller='word', cam=dict(action_mode='execute', req_s='optional'))
pk('InfD', 'control', ack='s', req=['range'], stream='u32', class_id=CI, info=[0xfffe], cam=dict(req_s=True, action_mode='none'))
pk('InfE', 'data', class_id=CI, info=[0x0001, 0x8000, 0x0002])
pk('InfF', 'control', req=['gain'], opt=['bandwidth', 'phase_offset'], stream='u32', class_id=CI, tsi='utc', tsf='picoseconds', controllee='uuid', controller='word', info=[0x1000], acked=True,
   cam=dict(action_mode='execute', req_v='optional', req_x=True, req_s='optional', req_w=True, req_er=True, permit_partial=True, permit_warnings=True))
pk('InfG', 'control', req=['range'], opt=['gain'], stream=0x1020304, class_id=CI, tsf='samples', controllee='word', info=[0x1000, 0x2000], acked=True, ext=True, cam=dict(req_s=True, action_mode='none', permit_errors=True))
pk('CtxDA', 'context', req=['reference_level'], opt=['buffer_size', 'gain'], stream='u32', difi=('reference_level', 'buffer_size'))
pk('CtxDB', 'context', req=['buffer_size'], opt=['reference_level', 'range'], stream='u32', difi=('reference_level', 'buffer_size'))
pk('CtxUA', 'context', req=['discrete_io_32'], opt=['discrete_io_64', 'gain'], stream='u32', ud=dict(discrete_io_32=[('aa', 5), ('bb', 'enable_indicator')], discrete_io_64=[('cc', 33), ('dd', 7)]))
