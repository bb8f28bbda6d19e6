#!/usr/bin/env python3
"""Rewrites the table of entries in harness/*/src/main.rs."""
import glob, os, re
for d in glob.glob(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness', '*', 'src')):
    m = os.path.join(d, 'main.rs')
    t = open(m).read()
    mods = sorted(os.path.basename(f)[:-3] for f in glob.glob(d + '/*.rs') if not f.endswith('main.rs'))
    rows = []
    for x in mods:
        rows += ['    ("%s", %s::%s),' % (e, x, e) for e in re.findall(r'pub extern "C" fn (sx_\w+)', open('%s/%s.rs' % (d, x)).read())]
    t = re.sub(r'(?m)^(mod \w+;\n)+', ''.join('mod %s;\n' % x for x in mods), t, count=1)
    t = re.sub(r'(ENTRIES: [^\n]*= &\[\n)(.*?)(\];)', lambda k: k.group(1) + '\n'.join(rows) + '\n' + k.group(3), t, flags=re.S)
    open(m, 'w').write(t)
