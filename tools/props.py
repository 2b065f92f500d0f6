import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TITLES = {}
for l in open(os.path.join(V, 'properties.jsonl')):
    d = json.loads(l)
    TITLES[d['id']] = d['title']

NATIVE_NOTE = ('cases of /verif/harness: inputs enumerated (small domains) or generated from the seed, run against the real '
               'crates and compared with an independent oracle; a case is non-trivial when its oracle had something to compare, '
               'distinct by the hash of the case text')

# units: Verus units in /verif/units; other: modules in /verif/tools; uncovered: what is not under contract
PROPS = {
    'C01': dict(units=['bitrange']),
    'C02': dict(units=['fieldpos']),
    'C04': dict(units=['registerproperties']),
    'C03': dict(units=['valid']),
    'C05': dict(units=['enums']),
    'C06': dict(units=['checknames', 'valid'], other=['patterns']),
    'C07': dict(units=['bitmask']),
    'C08': dict(units=['expand']),
    'C09': dict(units=['dim', 'dimparse', 'encode']),
    'C10': dict(units=['numbers']),
    'C11': dict(units=['numformat']),
    'C12': dict(units=['keywords', 'kwparse']),
    'C13': dict(units=['derive']),
    'C14': dict(units=['derive_array']),
    'C15': dict(units=['expand_properties', 'top']),
    'C16': dict(units=['expanddev', 'indexing', 'top']),
    'C17': dict(units=['chains', 'indexing', 'expanddev', 'top']),
    'C18': dict(units=['traverse']),
    'C19': dict(units=['build']),
    'C20': dict(units=['modify']),
    'C21': dict(units=['tree']),
    'C22': dict(units=['sort', 'encode']),
    'C23': dict(units=['paths']),
    'C24': dict(units=['encode'], uncovered='the parser half (contracts of the element parsers: see C25), the XML writer and reader themselves (xmltree, quick-xml, roxmltree): exercised by the native harness only, which encodes, parses and compares'),
    'C25': dict(units=['parse', 'top', 'build', 'numbers', 'kwparse', 'dimparse', 'fieldpos'], uncovered='roxmltree itself (assumed contracts on Document and Node); depth of the call stack on deeply nested clusters: exercised by the native harness only'),
    'C26': dict(units=['bom', 'top']),
    'C27': dict(units=['config']),
    'C28': dict(units=['parse', 'ignore', 'top'], uncovered='roxmltree itself (assumed contracts on Document and Node): exercised by the native harness only'),
}
NOT_APPLICABLE = {
    'C29': 'serialisation is generated by the serde derive macros and runs inside serde, serde_json and serde_yaml; no contract '
           'within reach of the installed verifiers can be put on macro-generated visitor code of those crates',
}
for k, v in PROPS.items():
    v.setdefault('level', 'proof')
    v['title'] = TITLES[k]
