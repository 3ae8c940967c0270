"""Another process: the digests of configurations. peer IN OUT"""
import json, sys, warnings
warnings.simplefilter('ignore')
from vh import cat
from vh.ident import dig
cat.build()
asked = json.load(open(sys.argv[1]))
out = {}
for n in sorted(asked, reverse=True):
    e = cat.ENTRIES[n]
    out[n] = []
    for c in asked[n]:
        try:
            out[n].append([c, dig(e.new(c))])
        except Exception as ex:  # noqa: BLE001
            out[n].append([c, 'exc ' + type(ex).__name__])
json.dump(out, open(sys.argv[2], 'w'))
