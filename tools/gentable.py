"""
Write the table of planted bugs at the end of DESIGN.md from seeded/.
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '<!-- planted -->\n'


def main():
    path = os.path.join(HERE, 'DESIGN.md')
    with open(path) as f:
        text = f.read()
    rows = []
    for name in os.listdir(os.path.join(HERE, 'seeded')):
        with open(os.path.join(HERE, 'seeded', name, 'meta.json')) as f:
            meta = json.load(f)
        rows.append((meta['property'], name, meta['needs']))
    table = ['| caught by | planted bug | needs |', '|---|---|---|']
    table += ['| %s | %s | %s |' % (p, n, needs.replace('|', '\\|').strip())
              for p, n, needs in sorted(rows)]
    with open(path, 'w') as f:
        f.write(text[:text.index(MARK)] + MARK + '\n' + '\n'.join(table) +
                '\n')


main()
