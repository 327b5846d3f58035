#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T={
'C01':('structured and mutated byte streams rendered in-process; oracle: no panic, abort or hang','crash search only; pictures are drawn up to 30000 dots of height'),
'C02':('generated command streams against an independent framing table; concatenation law','trusts the framing table written from the ESC/POS reference'),
'C03':('round trip binary -> .thermal -> binary; all byte pairs enumerated','none beyond the generators'),
'C04':('generated token lists with random layout against their intended bytes','trusts the reading of the documentation written down in the generator'),
'C05':('all tables, sets and bytes enumerated against reference tables; generated selections','reference tables come from Python codecs and the ESC/POS reference'),
'C06':('model-based histories of style commands and text; all parameter values enumerated','trusts the state model of the printer'),
'C07':('model-based layout of generated text; independent validity predicate for paragraphs','trusts the layout model for the exact places, the predicate trusts nothing of the code'),
'C08':('model-based histories of feeds, text and graphics; picture height','trusts the state model of the printer'),
'C09':('generated bar codes decoded again by independent decoders; pictures scanned','decoders written from the standards of the symbologies'),
'C10':('generated QR histories decoded again by an independent reader of QR and Micro QR','reader written from ISO/IEC 18004'),
'C11':('generated images against a dot by dot reference','trusts the reference of the bit orders'),
'C12':('model-based histories of graphics definitions, deletions and prints','trusts the store model'),
'C13':('model-based page mode histories; turned pages compared with each other; pictures','trusts the page model'),
'C14':('metamorphic: prefix + initialise + suffix against suffix alone; all setting pairs enumerated','positions and NV graphics follow the model'),
'C15':('generated jobs, html read back and compared with the layout of the picture','a reader for the subset of html that is written; browsers are not run'),
'C16':('metamorphic: same job fresh, reused, after others, on parallel threads','schedules are those the machine happens to run'),
'C17':('generated text and styles against an independent drawing of glyphs into cells; all glyphs enumerated','glyph shapes come from the same font library'),
'C18':('generated bad commands inserted into generated jobs; errors and output compared','trusts the rule where an unknown command ends'),
'C19':('stateful operation sequences on the canvas against a grid of pixels','a difference of 1 in 255 counts as rounding'),
'C20':('model-based documents; each compared with itself printed alone','trusts the state model for settings in force'),
'C21':('metamorphic: commands without effect inserted anywhere; output equal','list of commands without effect is from the ESC/POS reference'),
'C22':('all six digit codes enumerated, generated long numbers, decoded and expanded independently','expansion rule written from the UPC-E standard'),
'C23':('metamorphic: generated jobs with and without debugging; differences only where marks belong','marks on pages may be anywhere on the page'),
}
props=[json.loads(l) for l in open(os.path.join(root,'properties.jsonl'))]
m=dict(version=1,setup_cmd='bash check.sh build',checks=[],not_applicable=[])
for p in props:
    i=p['id']
    t,n=T[i]
    m['checks'].append(dict(property=i,quick_cmd=f'bash check.sh {i}',thorough_cmd=f'VERIF_TIER=thorough bash check.sh {i}',
        technique='property-based testing: '+t,level='exploration',level_note='Search over generated inputs, never a proof. '+n[0].upper()+n[1:]+'.'))
with open(os.path.join(root,'MANIFEST.json'),'w') as f:
    json.dump(m,f,indent=1); f.write('\n')
