"""writes MANIFEST.json"""
import json
CL = {
 'C01': 'element access', 'C02': 'insert and remove', 'C03': 'bulk operations', 'C04': 'any and all', 'C05': 'iteration', 'C06': 'equality, hash, clone',
 'C07': 'memory safety and decoding', 'C08': 'packing and capacity', 'C09': 'out-of-range positions'}
EVN = ('Every function the property depends on, in all six storage modules, is extracted from /repo on each run, put under contract and proved by Verus for all element widths, lengths, histories and arguments; '
       'assumes the EnumLike contract of the element type, contracts of Vec/SmallVec and other std types, 64-bit usize and lawful iterators. When the code is restructured beyond the contracts, a bounded replay of random histories on the real code decides instead (evidence then says exploration).')
NOTE = {}
NOTE['C07'] = dict(note=EVN.replace('64-bit usize and lawful iterators', '64-bit usize and finite iterators (their size hint may be wrong, they and closures may panic)'))
NA = {}
try:
    from manifest_more import CL2, NOTE as N2
    CL.update(CL2); NOTE.update(N2)
except ImportError:
    pass
m = dict(version=1, setup_cmd='true', checks=[
    dict(property=k, quick_cmd='python3 check.py ' + k, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + k,
         technique=NOTE.get(k, {}).get('technique', 'contract-based deductive verification (Verus) of the extracted source'), level=NOTE.get(k, {}).get('level', 'proof'),
         level_note=NOTE.get(k, {}).get('note', EVN)) for k in sorted(CL)],
    not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items()) if k not in CL],
    notes='Checks need nothing from setup_cmd. No hooks in /repo. Evidence level is "exploration" on a run where a part had to be decided by the bounded stand-in.')
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
