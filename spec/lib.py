"""Independent specification of the fixed-size words and structures of the packing library, written from
VITA 49.2-2017 (and DIFI 1.x for the difi:: types).  Positions are given as (word byte offset, word bits,
most-significant bit, width): bit numbering inside a word is the standard's, 31 (or 63) = first bit on the wire.

kind
  u      unsigned / enumeration / flag; value = the bits
  s      two's complement integer
  fix    signed fixed point, radix R;  ufix: unsigned fixed point, radix R
  bias1  the word stores value-1
  opt    value present exactly when all enable bits are ones; setting stores value and sets the enable bits;
         reset (where offered) clears the enable bits
"""
P = 'vrtgen::packing::'

class F:
    def __init__(s, name, word, msb, width, kind='u', R=None, cpp=None, ct='uint64_t', cast=None, en=None, rst=False, ro=False, get=None, set=None):
        s.name = name; s.off, s.wbits = word; s.msb = msb; s.width = width; s.kind = kind; s.R = R
        s.ct = ct; s.cast = cast; s.en = en; s.rst = rst; s.ro = ro
    def start(s): return s.off * 8 + (s.wbits - 1 - s.msb)         # index of the first wire bit
    def bits(s): return list(range(s.start(), s.start() + s.width))
    def en_bits(s):
        if not s.en: return []
        m, w = s.en
        a = s.off * 8 + (s.wbits - 1 - m)
        return list(range(a, a + w))

W0 = (0, 32)
D0 = (0, 64)
def flag(name, bit, word=W0, cast=None): return F(name, word, bit, 1, ct='bool', cast=cast)
def num(name, msb, w, word=W0, ct='uint32_t', cast=None): return F(name, word, msb, w, ct=ct, cast=cast)
def fix(name, msb, w, R, word=W0): return F(name, word, msb, w, 'fix', R, ct='double')
def ufix(name, msb, w, R, word=W0): return F(name, word, msb, w, 'ufix', R, ct='double')
def opt(name, bit, en): return F(name, W0, bit, 1, 'opt', ct='bool', en=(en, 1), rst=True)

class C:
    def __init__(s, prop, cpp, header, size, fields, default=None, wmode=None, anynone=False):
        s.prop = prop; s.cpp = cpp; s.header = header; s.size = size; s.fields = fields
        s.impl = None
        s.default = bytes(size) if default is None else default; s.anynone = anynone
        s.id = cpp.replace('vrtgen::packing::', '').replace('::', '_').replace('<', '_').replace('>', '')

HDR = [num('packet_type', 31, 4, ct='uint8_t', cast=P+'PacketType'), flag('class_id_enable', 27),
       num('tsi', 23, 2, ct='uint8_t', cast=P+'TSI'), num('tsf', 21, 2, ct='uint8_t', cast=P+'TSF'),
       num('packet_count', 19, 4, ct='uint8_t'), num('packet_size', 15, 16, ct='uint16_t')]

CLASSES = []
def cls(*a, **k): CLASSES.append(C(*a, **k))

h = 'vrtgen/packing/header.hpp'
cls('C05', P+'Header', h, 4, HDR)
cls('C05', P+'DataHeader', h, 4, HDR + [flag('trailer_included', 26), flag('not_v49d0', 25), flag('spectrum_or_time', 24, cast=P+'SPECTRUM_OR_TIME')])
cls('C05', P+'ContextHeader', h, 4, HDR + [flag('not_v49d0', 25), flag('tsm', 24, cast=P+'TSM')])
cls('C05', P+'CommandHeader', h, 4, HDR + [flag('acknowledge_packet', 26), flag('cancellation_packet', 24)])
cls('C05', P+'ClassIdentifier', 'vrtgen/packing/prologue.hpp', 8,
    [num('pad_bits', 63, 5, D0, 'uint8_t'), num('oui', 55, 24, D0), num('information_code', 31, 16, D0, 'uint16_t'), num('packet_code', 15, 16, D0, 'uint16_t')])

IF0 = dict(change_indicator=31, reference_point_id=30, bandwidth=29, if_ref_frequency=28, rf_ref_frequency=27, rf_ref_frequency_offset=26,
           if_band_offset=25, reference_level=24, gain=23, over_range_count=22, sample_rate=21, timestamp_adjustment=20,
           timestamp_calibration_time=19, temperature=18, device_id=17, state_event_indicators=16, signal_data_format=15, formatted_gps=14,
           formatted_ins=13, ecef_ephemeris=12, relative_ephemeris=11, ephemeris_ref_id=10, gps_ascii=9, context_association_lists=8)
IF1 = dict(phase_offset=31, polarization=30, pointing_vector=29, pointing_vector_structure=28, spatial_scan_type=27, spatial_reference_type=26,
           beam_width=25, range=24, ebno_ber=20, threshold=19, compression_point=18, intercept_points=17, snr_noise_figure=16, aux_frequency=15,
           aux_gain=14, aux_bandwidth=13, array_of_cifs=11, spectrum=10, sector_step_scan=9, index_list=7, discrete_io_32=6, discrete_io_64=5,
           health_status=4, v49_spec_compliance=3, version_information=2, buffer_size=1)
IF2 = dict(bind=31, cited_sid=30, sibling_sid=29, parent_sid=28, child_sid=27, cited_message_id=26, controllee_id=25, controllee_uuid=24,
           controller_id=23, controller_uuid=22, information_source=21, track_id=20, country_code=19, operator_id=18, platform_class=17,
           platform_instance=16, platform_display=15, ems_device_class=14, ems_device_type=13, ems_device_instance=12, modulation_class=11,
           modulation_type=10, function_id=9, mode_id=8, event_id=7, function_priority_id=6, communication_priority_id=5, rf_footprint=4,
           rf_footprint_range=3)
IF3 = dict(timestamp_details=31, timestamp_skew=30, rise_time=27, fall_time=26, offset_time=25, pulse_width=24, period=23, duration=22, dwell=21,
           jitter=20, age=17, shelf_life=16, air_temperature=7, sea_ground_temperature=6, humidity=5, barometric_pressure=4, sea_swell_state=3,
           tropospheric_state=2, network_id=1)
IF7 = dict(current_value=31, mean_value=30, median_value=29, standard_deviation=28, max_value=27, min_value=26, precision=25, accuracy=24,
           first_derivative=23, second_derivative=22, third_derivative=21, probability=20, belief=19)
def enables(p): return {p+'7_enable': 7, p+'3_enable': 3, p+'2_enable': 2, p+'1_enable': 1}
def flags(d): return [flag(k, v) for k, v in d.items()]
i = 'vrtgen/packing.hpp'
cls('C06', P+'CIF0', i, 4, flags({**IF0, **enables('cif')}), anynone=True)
cls('C06', P+'CIF1', i, 4, flags(IF1), anynone=True)
cls('C06', P+'CIF2', 'vrtgen/packing/cif2.hpp', 4, flags(IF2), anynone=True)
cls('C06', P+'IndicatorField3', i, 4, flags(IF3), anynone=True)
cls('C06', P+'CIF7', i, 4, flags(IF7), anynone=True)
cls('C06', P+'WIF0', i, 4, flags({**IF0, **enables('wif')}), anynone=True)
cls('C06', P+'EIF0', i, 4, flags({**IF0, **enables('eif')}), anynone=True)
for n, d in (('1', IF1), ('2', IF2), ('3', IF3), ('7', IF7)):
    cls('C06', P+'WEIF'+n, i, 4, flags(d), anynone=True)

SE = [('calibrated_time', 19, 31), ('valid_data', 18, 30), ('reference_lock', 17, 29), ('agc_mgc', 16, 28), ('detected_signal', 15, 27),
      ('spectral_inversion', 14, 26), ('over_range', 13, 25), ('sample_loss', 12, 24)]
cls('C07', P+'StateEventIndicators', i, 4, [opt(*x) for x in SE])
cls('C07', P+'Trailer', 'vrtgen/packing/trailer.hpp', 4, [opt(*x) for x in SE] + [
    F('sample_frame', W0, 11, 2, 'opt', ct='uint32_t', cast=P+'SSI', en=(23, 2)),
    F('associated_context_packets_count', W0, 6, 7, 'opt', ct='uint8_t', en=(7, 1))])

CAM = [flag('controllee_enable', 31), flag('controllee_format', 30, cast=P+'IdentifierFormat'), flag('controller_enable', 29),
       flag('controller_format', 28, cast=P+'IdentifierFormat'), flag('permit_partial', 27), flag('permit_warnings', 26), flag('permit_errors', 25),
       num('action_mode', 24, 2, cast=P+'ActionMode'), flag('nack_only', 22), num('timing_control', 14, 3, cast=P+'TimestampControlMode')]
c = 'vrtgen/packing/command.hpp'
cls('C08', P+'ControlAcknowledgeMode', c, 4, CAM)
cls('C08', P+'ControlCAM', c, 4, CAM + [flag('req_v', 20), flag('req_x', 19), flag('req_s', 18), flag('req_w', 17), flag('req_er', 16)])
cls('C08', P+'AcknowledgeCAM', c, 4, CAM + [flag('ack_v', 20), flag('ack_x', 19), flag('ack_s', 18), flag('ack_w', 17), flag('ack_er', 16),
    flag('partial_action', 11), flag('scheduled_or_executed', 10)])
cls('C08', P+'WarningErrorFields', c, 4, [flag(n, 31 - k) for k, n in enumerate(
    ['field_not_executed', 'device_failure', 'erroneous_field', 'parameter_out_of_range', 'parameter_unsupported_precision', 'field_value_invalid',
     'timestamp_problem', 'hazardous_power_levels', 'distortion', 'in_band_power_compliance', 'out_of_band_power_compliance',
     'cosite_interference', 'regional_interference'])], anynone=True)

def two(name, a, b, R, **k): cls('C09', P+name, i, 4, [fix(a, 31, 16, R), fix(b, 15, 16, R)], **k)
two('Gain', 'stage_2', 'stage_1', 7)
two('difi::ReferenceLevel', 'scaling_level', 'reference_level', 7)
two('Polarization', 'tilt_angle', 'ellipticity_angle', 13)
cls('C09', P+'PointingVector', i, 4, [fix('elevation_angle', 31, 16, 7), ufix('azimuthal_angle', 15, 16, 7)])
two('BeamWidth', 'horizontal', 'vertical', 7)
two('EbNoBER', 'ebno', 'ber', 7, default=bytes.fromhex('7fff7fff'))
two('Threshold', 'stage_2', 'stage_1', 7)
two('InterceptPoints', 'second_order', 'third_order', 7)
two('SNRNoise', 'snr', 'noise', 7, default=bytes.fromhex('7fff0000'))
cls('C09', P+'DeviceIdentifier', i, 8, [num('manufacturer_oui', 55, 24, D0), num('device_code', 15, 16, D0, 'uint16_t')])
GEO = [num('tsi', 27, 2, ct='uint8_t', cast=P+'TSI'), num('tsf', 25, 2, ct='uint8_t', cast=P+'TSF'), num('manufacturer_oui', 23, 24),
       num('integer_timestamp', 31, 32, (4, 32)), num('fractional_timestamp', 63, 64, (8, 64), 'uint64_t')]
def f32(name, byte, R): return fix(name, 31, 32, R, (byte, 32))
UNSPEC = bytes.fromhex('7fffffff')
cls('C09', P+'Geolocation', i, 44, GEO + [f32('latitude', 16, 22), f32('longitude', 20, 22), f32('altitude', 24, 5), f32('speed_over_ground', 28, 16),
    f32('heading_angle', 32, 22), f32('track_angle', 36, 22), f32('magnetic_variation', 40, 22)], default=bytes(4) + b'\xff' * 12 + UNSPEC * 7)
cls('C09', P+'Ephemeris', i, 52, GEO + [f32('position_x', 16, 5), f32('position_y', 20, 5), f32('position_z', 24, 5), f32('attitude_alpha', 28, 22),
    f32('attitude_beta', 32, 22), f32('attitude_phi', 36, 22), f32('velocity_dx', 40, 16), f32('velocity_dy', 44, 16), f32('velocity_dz', 48, 16)],
    default=bytes(4) + b'\xff' * 12 + UNSPEC * 9)
cls('C09', P+'PayloadFormat', i, 8, [num('packing_method', 63, 1, D0, 'bool', P+'PackingMethod'), num('real_complex_type', 62, 2, D0, cast=P+'DataSampleType'),
    num('data_item_format', 60, 5, D0, cast=P+'DataItemFormat'), flag('repeat_indicator', 55, D0), num('event_tag_size', 54, 3, D0, 'uint8_t'),
    num('channel_tag_size', 51, 4, D0, 'uint8_t'), num('data_item_fraction_size', 47, 4, D0, 'uint8_t'),
    F('item_packing_field_size', D0, 43, 6, 'bias1', ct='uint8_t'), F('data_item_size', D0, 37, 6, 'bias1', ct='uint8_t'),
    F('repeat_count', D0, 31, 16, 'bias1', ct='uint16_t'), F('vector_size', D0, 15, 16, 'bias1', ct='uint16_t')])
cls('C09', P+'Spectrum', i, 52, [num('spectrum_type', 7, 8, ct='uint8_t', cast=P+'SpectrumType'), num('averaging_type', 15, 8, ct='uint8_t', cast=P+'AveragingType'),
    num('window_time', 19, 4, ct='uint8_t', cast=P+'WindowTimeDelta'), num('window_type', 7, 8, (4, 32), 'uint8_t', P+'WindowType'),
    num('num_transform_points', 31, 32, (8, 32)), num('num_window_points', 31, 32, (12, 32)), fix('resolution', 63, 64, 20, (16, 64)),
    fix('span', 63, 64, 20, (24, 64)), num('num_averages', 31, 32, (32, 32)), num('weighting_factor', 31, 32, (36, 32)),
    F('f1_index', (40, 32), 31, 32, 's', ct='int32_t'), F('f2_index', (44, 32), 31, 32, 's', ct='int32_t'), num('window_time_delta', 31, 32, (48, 32))])
cls('C09', P+'SectorStepScanCIF', i, 4, flags(dict(sector_number=31, f1_start_frequency=30, f2_stop_frequency=29, resolution_bandwidth=28,
    tune_step_size=27, number_points=26, default_gain=25, threshold=24, dwell_time=23, start_time=22, time_3=21, time_4=20)), anynone=True)
cls('C09', P+'VersionInformation', i, 4, [num('year', 31, 7, ct='uint8_t'), num('day', 24, 9, ct='uint16_t'), num('revision', 15, 6, ct='uint8_t'), num('user_defined', 9, 10, ct='uint16_t')])
cls('C09', P+'difi::BufferSize', i, 12, [num('buffer_size', 63, 64, D0, 'uint64_t'), num('level', 15, 12, (8, 32), 'uint16_t'), flag('overflow', 3, (8, 32)),
    flag('nearly_full', 2, (8, 32)), flag('nearly_empty', 1, (8, 32)), flag('underflow', 0, (8, 32))])
cls('C09', P+'Belief', 'vrtgen/packing/cif7.hpp', 4, [num('belief_percent', 7, 8, ct='int32_t')])
cls('C09', P+'Probability', 'vrtgen/packing/cif7.hpp', 4, [num('probability_function', 15, 8, ct='uint8_t'), num('probability_percent', 7, 8, ct='uint8_t')])
