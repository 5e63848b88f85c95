"""Writes the table of planted bugs at the end of DESIGN.md."""
import json, pathlib
root = pathlib.Path('/verif')
p = root / 'DESIGN.md'
mark = '\n## Planted bugs\n'
text = p.read_text().split(mark)[0].rstrip('\n') + '\n'
rows = []
for d in sorted((root / 'seeded').iterdir()):
    m = json.loads((d / 'meta.json').read_text())
    rows.append(f"| {d.name} | {m['needs']} | {m['property']} |")
text += mark + '''
Each was run against the check of its own property in the quick tier, which reports it; some are reported by
other checks as well (a lost component by C03, C04, C08 and C11, for example).

| planted bug | what it needs in order to manifest | caught by |
| --- | --- | --- |
''' + '\n'.join(rows) + '\n'
p.write_text(text)
