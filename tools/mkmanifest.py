"""Writes /verif/MANIFEST.json from the property modules that exist."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
TECH = {
 'C01': 'property-based round trip (Hypothesis): generated databases, edits and file configurations saved and reopened, against a reference model',
 'C02': 'differential property-based testing: files from an independent KDBX writer, read by pykeepass, against the model written',
 'C03': 'differential property-based testing: files saved by pykeepass, read by an independent strict KDBX reader, against the model',
 'C04': 'stateful property-based testing of edit histories; saved payloads inspected by an independent reader',
 'C05': 'property-based testing over credential pairs and credential-change histories, against the composite-key specification',
 'C06': 'structured generation of key files (all kinds and near misses), against an independent key file interpreter',
 'C07': 'mutation fuzzing of files (bytes, blocks, truncation, hash-fixing), against reject-or-original oracle',
 'C08': 'mutation fuzzing by file region, against the documented exception per region',
 'C09': 'fault injection: generated saves failed or killed at enumerated system calls and byte offsets, file system checked afterwards',
 'C10': 'model-based stateful testing: generated operation histories against a reference model of the whole database',
 'C11': 'stateful property-based testing with generated refused calls; whole-database before/after comparison',
 'C12': 'property-based testing of searches against a brute-force reference search over the model',
 'C13': 'property-based testing of paths over generated trees and move/rename histories, against the model',
 'C14': 'model-based stateful testing of index/reindex against list semantics, over generated child interleavings',
 'C15': 'model-based stateful testing of binaries and attachments, against a reference pool model',
 'C16': 'model-based stateful testing of history snapshots, against stored snapshot copies',
 'C17': 'model-based stateful testing of trash, restore and empty-bin histories, against the model',
 'C18': 'model-based stateful testing of custom properties, against a dictionary',
 'C19': 'property-based testing of generated instants, offsets, zones and stored forms, against integer instants',
 'C20': 'property-based testing of expiry and credential-change settings around their limits, against integer arithmetic',
 'C21': 'property-based testing over generated acyclic reference graphs, against a reference resolver',
 'C22': 'differential property-based testing: foreign content before and after edits, by an independent reader',
 'C23': 'property-based testing over file configurations, against the writer\'s settings',
 'C24': 'property-based testing over credentials and key derivations, against independent key derivation; save/open histories',
 'C25': 'stateful property-based testing of creation sequences, by an independent reader and a model per database',
 'C26': 'stateful property-based testing of identity: all pairs of objects by all routes over generated histories',
 'C27': 'stateful property-based testing of exports, parsed by an independent XML parser, against the model',
 'C28': 'property-based testing with steered sizes around block boundaries, large counts and large values; round trip and differential',
 'C29': 'stateful property-based testing of open/edit/save/reload histories; whole-directory comparison after each step',
 'C30': 'stateful property-based testing of interleaved operations on several databases, each against its own model',
}
COMMON = ('Generated-input search: a quick run covers the number of distinct cases in the evidence file, no proof of absence. Trusts the reference KDBX reader/writer and model in pbt/ '
          '(checked against each other and against the repository\'s sample files by setup_cmd), hashlib, zlib, pycryptodome primitives and expat.')
EXTRA = {
 'C09': 'Failures are injected at every write call/byte offset bucket and every file-system call of a save, in a child process for kills; power loss (un-synced page cache) is not modelled.',
 'C07': 'Tampering that forges a hash collision or knows the credentials is outside the claim, as is the KDBX3 header, which that format authenticates only through an optional hash.',
 'C25': 'Key derivation results are remembered within a run (transparent memo on the KDF primitive) to afford many creations.',
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    f = os.path.join(V, 'pbt/props/%s.py' % i.lower())
    if not os.path.exists(f):
        na.append({'property': i, 'reason': 'check not built yet'})
        continue
    m = re.search(r"^LEVEL\s*=\s*'(\w+)'", open(f).read(), re.M)
    checks.append({'property': i, 'quick_cmd': '%s run.py %s' % (PY, i), 'thorough_cmd': '%s run.py %s --tier thorough' % (PY, i), 'evidence_file': 'evidence/%s.json' % i,
                   'technique': TECH[i], 'level': m.group(1) if m else 'exploration', 'level_note': (EXTRA.get(i, '') + ' ' + COMMON).strip()})
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': PY + ' tools/selftest.py', 'checks': checks, 'not_applicable': na,
               'notes': 'No hooks: the checks use the public interface only. Seeds: VERIF_SEED; cases: VERIF_EXAMPLES; time budget: VERIF_BUDGET; a replay file is run with run.py <id> --replay <file>.'},
              f, indent=1)
    f.write('\n')
print(len(checks), len(na))
