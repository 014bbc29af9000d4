"""Development tool: prints the table of planted bugs for DESIGN.md."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent / 'seeded'
print('| planted bug | check | needs |\n|---|---|---|')
for d in sorted(root.iterdir()):
  m = json.loads((d / 'meta.json').read_text())
  print(f"| {d.name} | {m['property']} | {m['needs']} |")
