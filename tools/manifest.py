#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contracts on the real code (macro-expanded, mechanically extracted on every run), proved with Verus/Z3; failed obligations replayed on the real code'
NOTE = 'Deductive proof of every contracted function of this property on the current source, plus a bounded run of the real code that supplies failing inputs. Trusted: Verus, Z3, rustc and its macro expansion, the extraction rules, and the assumed std contracts listed in the evidence.'
CLAIMED = {}
UNTYPED = {
    'C01': ['theorems::c01_reencode', 'theorems::c01_unique'],
    'C02': ['theorems::c02_roundtrip'],
    'C03': ['theorems::c03_canonical', 'theorems::c03_entry_order'],
    'C04': [],
    'C05': ['theorems::c05_complete', 'theorems::c05_trailing'],
    'C06': ['theorems::c06_decode', 'theorems::c06_default'],
    'C07': ['theorems::c07_extends'],
    'C08': ['theorems::c08_total', 'theorems::c08_bytes'],
    'C09': ['typed_props::c09_*'],
    'C10': ['typed_props::c10_*'],
    'C11': ['typed_props::c11_*'],
    'C12': ['typed_props::c12_*', 'derived::c12_field'],
    'C13': ['derived_gen::<T as Codec>::back'],
    'C14': ['derived_gen::c14_*'],
    'C15': ['derived_gen::c15_*'],
    'C16': ['sd_props::c16_*'],
    'C17': ['sd_props::c17_*'],
    'C18': ['typed_props::c18_extract', 'typed_props::c18_strict'],
    'C19': ['typed_props::c19_conversions', 'typed_props::c19_simple'],
}
for k, v in UNTYPED.items():
    CLAIMED[k] = dict(theorems=v)
DER = ' Programs: each declaration of the catalogue (harness/catalogue) is proved for all inputs; other declarations are not covered.'
for k in ('C12', 'C13', 'C14', 'C15'):
    CLAIMED[k]['note'] = NOTE + DER
PENDING = 'No contracts yet in this version of the framework; work in progress.'
ids = [json.loads(l)['id'] for l in open(f'{ROOT}/properties.jsonl')]
SER = ' The traits of serde are mirrored with contracts; that the derived and built-in impls of them drive a serializer by their data and read as the contract `Derived` says is assumed (and compared with the real ones in the bounded run).'
for k in ('C16', 'C17'):
    CLAIMED[k]['note'] = NOTE + SER
m = {
    'version': 1,
    'setup_cmd': 'python3 tools/vx.py setup',
    'checks': [],
    'not_applicable': [{'property': i, 'reason': PENDING} for i in ids if i not in CLAIMED],
    'notes': 'No hooks in /repo: contracts live in /verif/contracts and are attached to the macro-expanded source on every run.',
}
for i in ids:
    if i in CLAIMED:
        c = dict(property=i, quick_cmd=f'./check {i} quick', thorough_cmd=f'./check {i} thorough', evidence_file=f'evidence/{i}.json',
                 technique=CLAIMED[i].get('technique', TECH), level=CLAIMED[i].get('level', 'proof'), level_note=CLAIMED[i].get('note', NOTE))
        if CLAIMED[i].get('theorems'):
            c['theorems'] = CLAIMED[i]['theorems']
        m['checks'].append(c)
json.dump(m, open(f'{ROOT}/MANIFEST.json', 'w'), indent=1)
