"""the table of planted bugs in DESIGN.md (between the two marks), from seeded/*/meta.json"""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST, LAST = '<!-- bugs -->', '<!-- /bugs -->'


def main():
    rows = ['| bug | caught by | what it does | needs |', '|---|---|---|---|']
    for path in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        with open(path) as f:
            m = json.load(f)
        rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(path)), m['property'],
                                               m['what_it_breaks'], m['needs']))
    doc = os.path.join(HERE, 'DESIGN.md')
    with open(doc) as f:
        text = f.read()
    a, b = text.index(FIRST) + len(FIRST), text.index(LAST)
    with open(doc, 'w') as f:
        f.write(text[:a] + '\n' + '\n'.join(rows) + '\n' + text[b:])


main()
