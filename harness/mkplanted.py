"""Write the list of planted bugs in DESIGN.md from seeded/*/meta.json
(a development aid; no check reads /verif/seeded)."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| change | caught by | needs |', '|---|---|---|']
for name in sorted(os.listdir(here + '/seeded')):
    m = json.load(open(f'{here}/seeded/{name}/meta.json'))
    rows.append(f"| {name} | {m.get('caught', m['property'])} | {m['needs']} |")
text = open(here + '/DESIGN.md').read()
block = '<!-- planted -->\n' + '\n'.join(rows) + '\n<!-- /planted -->'
if '<!-- planted -->' in text:
    text = re.sub(r'<!-- planted -->.*?<!-- /planted -->', lambda _: block, text, flags=re.S)
else:
    text = text.replace('PLANTED', block)
open(here + '/DESIGN.md', 'w').write(text)
