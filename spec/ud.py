"""Independent specification of user-defined sub-fields (discrete I/O words, trailer indicators, stream identifiers):
sub-fields are allotted bits in the order they are listed, from the least significant bit of the word up (from bit 8 up in
a trailer, whose enable bits lie 12 higher).  Each specification here is a source for the generator and an oracle for the
structure it generates."""
from .lib import F, C, W0, D0

def width(w):
    """bits of a sub-field: flag, value and enable flags, integer of w bits, list of enumeration names"""
    return 1 if w == 'bool' else w if isinstance(w, int) else -(-len(w) // 2)
def trailer_width(w): return 1 if w == 'enable_indicator' else max(1, (len(w) - 1).bit_length())
def ct(n): return 'uint8_t' if n <= 8 else 'uint16_t' if n <= 16 else 'uint32_t' if n <= 32 else 'uint64_t'

class UD:
    """kind: dio32, dio64, sid (stream identifier), trailer"""
    def __init__(s, name, kind, subs, extra=''):
        s.name = name; s.kind = kind; s.subs = subs; s.extra = extra
        s.file = ''.join('_' + c.lower() if c.isupper() and i else c.lower() for i, c in enumerate(name))
    def yaml(s):
        def seq(n, w, ind):
            if isinstance(w, list): return f'{ind}{n}: !!seq\n' + ''.join(f'{ind}  - {x}\n' for x in w)
            if s.kind == 'sid': return f'{ind}{n}: !IntegerType\n{ind}  bits: {w}\n'
            return f'{ind}{n}: ' + (f'!!int {w}' if isinstance(w, int) else w) + '\n'
        body = lambda ind: ''.join(seq(n, w, ind) for n, w in s.subs)
        if s.kind == 'trailer': return f'{s.name}: !Data\n{s.extra}  trailer: !Trailer\n' + body('    ')
        if s.kind == 'sid': return f'{s.name}: !Context\n{s.extra}  stream_id: !StreamID\n' + body('    ') + '  cif_0: !CIF0\n    bandwidth: optional\n'
        n = s.kind[3:]
        return f'{s.name}: !Context\n{s.extra}  stream_id: !StreamID\n  cif_1: !CIF1\n    discrete_io_{n}: !DiscreteIO{n}\n      mode: required\n' + body('      ')
    def cls(s):
        ns = f'X_ns::packets::{s.file}'; word = D0 if s.kind == 'dio64' else W0; o = []; pos = 8 if s.kind == 'trailer' else 0
        for n, w in s.subs:
            en = f'{ns}::enums::{n}' if isinstance(w, list) else None
            if s.kind == 'trailer':
                k = trailer_width(w); m = pos + k - 1
                o.append(F(n, W0, m, k, 'opt', ct='bool' if en is None else 'uint8_t', cast=en, en=(m + 12, k), rst=True))
            elif w == 'enable_indicator':
                o += [F(n, word, pos, 1, ct='bool'), F(n + '_enable', word, pos + 1, 1, ct='bool')]; k = 2
            else:
                k = width(w); o.append(F(n, word, pos + k - 1, k, ct='bool' if k == 1 and en is None else ct(k), cast=en))
            pos += k
        c = C('C20', f'{ns}::structs::' + dict(dio32='DiscreteIO32', dio64='DiscreteIO64', sid='StreamIdentifier', trailer='Trailer')[s.kind], s.file + '.hpp', 8 if s.kind == 'dio64' else 4, o)
        c.id = s.name; c.impl = s.file + '.cpp'
        return c

L = lambda n: list('abcdefghijklmnopqrstuvwxyz'[:n])
UDS = [UD('DioA', 'dio32', [('b1', 'bool'), ('e1', 'enable_indicator'), ('i5', 5), ('en3', L(3)), ('i1', 1), ('b2', 'bool'), ('i20', 20)]),     # 1+2+5+2+1+1+20 = 32
       UD('DioB', 'dio32', [('i32', 32)]),
       UD('DioC', 'dio32', [('en2', L(2)), ('en4', L(4)), ('en5', L(5)), ('i9', 9), ('e1', 'enable_indicator'), ('i7', 7), ('i8', 8)]),   # 1+2+3+9+2+7+8 = 32
       UD('DioD', 'dio32', [('i17', 17), ('b', 'bool')]),
       UD('DioE', 'dio32', [(f'e{k}', 'enable_indicator') for k in range(16)]),
       UD('DioF', 'dio64', [('i31', 31), ('i3', 3), ('en7', L(7)), ('i20', 20), ('e1', 'enable_indicator'), ('b', 'bool'), ('i2', 2), ('i1', 1)]),   # 31+3+4+20+2+1+2+1 = 64
       UD('DioG', 'dio64', [('i64', 64)]),
       UD('DioH', 'dio64', [('i33', 33), ('b', 'bool'), ('i16', 16), ('e1', 'enable_indicator'), ('i12', 12)]),   # 33+1+16+2+12 = 64
       UD('DioI', 'dio64', [('b', 'bool'), ('i40', 40), ('en6', L(6)), ('i8', 8)]),
       UD('DioJ', 'dio64', [(f'b{k}', 'bool') for k in range(33)] + [('e1', 'enable_indicator'), ('en8', L(8))]),
       UD('SidA', 'sid', [('aa', 12)]), UD('SidB', 'sid', [('aa', 8), ('bb', 8), ('cc', 16)]), UD('SidC', 'sid', [('aa', 1), ('bb', 31)]), UD('SidD', 'sid', [('aa', 32)]),
       UD('SidE', 'sid', [('aa', 3), ('bb', 17), ('cc', 5), ('dd', 1), ('ee', 6)]), UD('SidF', 'sid', [('aa', 4), ('bb', 9)]),
       UD('TrlA', 'trailer', [('user_defined1', 'enable_indicator'), ('user_defined_en', L(3))]),
       UD('TrlB', 'trailer', [(f'user_defined{k}', 'enable_indicator') for k in range(4)]),
       UD('TrlC', 'trailer', [('user_defined_en', L(13))]), UD('TrlD', 'trailer', [('user_defined_en', L(8)), ('user_defined1', 'enable_indicator')]),
       UD('TrlE', 'trailer', [('user_defined1', 'enable_indicator'), ('user_defined2', 'enable_indicator')]),
       UD('TrlF', 'trailer', [('sample_frame', 'required'), ('user_defined_en', L(4))][1:], extra='  stream_id: !StreamID\n'),
       UD('TrlG', 'trailer', [('user_defined_a', L(2)), ('user_defined_b', L(2)), ('user_defined_c', L(4))])]
# specifications that leave no disjoint bits: the generator has to refuse them
REFUSED = [UD('BadA', 'dio32', [('i31', 31), ('e1', 'enable_indicator')]), UD('BadB', 'dio64', [('i64', 64), ('b', 'bool')]), UD('BadC', 'sid', [('aa', 17), ('bb', 16)]),
           UD('BadD', 'trailer', [(f'user_defined{k}', 'enable_indicator') for k in range(5)]), UD('BadE', 'trailer', [('user_defined_en', L(9)), ('user_defined1', 'enable_indicator')]),
           UD('BadF', 'trailer', [('user_defined_en', L(17))]), UD('BadG', 'trailer', [('user_defined_en', L(2)), ('user_defined_b', L(3)), ('user_defined_c', L(3))])]
