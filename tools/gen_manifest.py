"""writes MANIFEST.json (claims below; everything else of properties.jsonl goes to not_applicable)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'contract-based deductive verification: VC generation over the LLVM IR of /repo\'s current source, per-function obligations discharged by z3/cvc5'
TPY = 'contract-based deductive verification: contracts on the real Python functions, one obligation per path of their symbolic execution over /repo\'s current source, discharged by z3'
NOTEPY = ('Trusted: the symbolic executor of Python (vc/pysym.py) and its string models, z3. What runs is the module text of /repo, transformed only by redirecting operators and built-ins to the executor.')
NOTE = ('Every obligation is discharged for all inputs and contents; no bound on values. Trusted: clang front end, the VC generator, z3/cvc5, '
        'the assumed libc/libstdc++ contracts listed in evidence.assumptions.')
PKT = ('Proved for every object state, argument and history of each generated class of a fixed corpus of packet specifications (bounded: the corpus of spec/pkt.py, '
       'in which every fixed-size field of CIF0/1/2 occurs as required and as optional); the quantifier over specifications is covered by that corpus only. '
       'Not in the corpus: fields of variable size, CIF7.')
CLAIM = {
 'C01': 'All (position, width) instances over the four word types are enumerated; contents and values are unbounded.',
 'C02': 'All eight integer types and both directions.',
 'C03': 'All radixes of the widths 8, 12, 16, 24, 32, 48 and 64; the input real is any finite double in range.',
 'C04': 'All 32-digit texts, dashed and plain, and all 16-byte values.',
 **{k: PKT + v for k, v in {
  'C12': ' Packets of at most 65,535 words (the size field has 16 bits).', 'C13': '', 'C14': '', 'C15': '', 'C16': ' Received byte strings of any content and of any length from the minimum up.',
  'C17': '', 'C18': ' Packets of at most 65,535 words; payloads of every length up to that.'}.items()},
 'C19': 'Proved for every object state, argument and history (constructing, adding, replacing, removing, parsing) of each generated validation/execution acknowledge class of the corpus (bounded: 44 classes of spec/pkt.py, in which every fixed-size field of CIF0/1/2 has a warning or an error response, pairs of fields cover all pairs of indicator words, and five classes have both warnings and errors); the quantifier over specifications is covered by that corpus only.',
 'C20': 'Proved for every previous content and argument of each generated structure of the corpus (bounded: the specifications of spec/ud.py, 23 accepted; 7 without room for disjoint sub-fields must be refused, which is decided by running the generator).',
 'C10': 'All element counts up to the bound of the count field (GPS ASCII: up to 2^28 words), all contents, any earlier content. SectorStepScan is a template over its record type: proved for one record type (a 12-byte record); IndexList for entries of 1, 2 and 4 bytes.',
 'C21': 'Every string (over code points up to U+2FFFF), integer, boolean, null or real as the literal, from an arbitrary earlier state of the object; literals are given between two neighbours of the same mapping. The text of a number (stream identifier) is over-approximated by an uninterpreted conversion with axioms.',
 'C22': 'Received bytes of every length (0 to 2^40) and content; contents of byte vectors are abstracted (arbitrary), their lengths are exact. Quick leaves out one large acknowledge class (AckB105) that the thorough tier includes.',
 'C23': 'Every address text, port, length, buffer and endpoint state, and every result the operating system may give; operating system calls are assumed contracts (ghost log of calls). Sends that wait for acknowledgements (threads, futures) are outside.',
 'C05': '', 'C06': '', 'C07': '', 'C08': '', 'C09': '', 'C11': '',
}
PY = ('C21',)
NA = json.load(open(os.path.join(V, 'tools', 'na.json')))
def main():
    props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
    checks = []; na = []
    for p in props:
        i = p['id']
        if i in CLAIM:
            checks.append(dict(property=i, quick_cmd=f'python3-vt check.py {i} quick', thorough_cmd=f'python3-vt check.py {i} thorough', technique=TPY if i in PY else T, level='proof', level_note=(CLAIM[i] + ' ' + (NOTEPY if i in PY else NOTE)).strip()))
        else: na.append(dict(property=i, reason=NA[i]))
    m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
             notes='check.py PROPERTY TIER regenerates IR from /repo, generates the verification conditions and discharges them; see DESIGN.md.')
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
if __name__ == '__main__': main()
