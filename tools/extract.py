#!/usr/bin/env python3
"""One-off: copies a brace-initialised numeric table out of a library source into a frozen reference table."""
import re, sys
def table(path, name):
    s = open(path).read()
    s = re.sub(r"/\*.*?\*/", " ", s, flags=re.S); s = re.sub(r"//[^\n]*", " ", s)
    i = s.index(name); i = s.index("=", i); j = s.index("{", i)
    d = 0; k = j
    while True:
        if s[k] == "{": d += 1
        if s[k] == "}":
            d -= 1
            if d == 0: break
        k += 1
    return [x for x in re.findall(r"[-+]?\s*(?:\d+\.\d*|\.\d+|\d+)(?:[eE][-+]?\d+)?", s[j:k+1])]
if __name__ == "__main__":
    v = table(sys.argv[1], sys.argv[2]); w = int(sys.argv[3])
    v = [x.replace(" ", "") for x in v]
    assert len(v) % w == 0, len(v)
    for i in range(0, len(v), w):
        print("{" + ",".join(x + ("L" if re.search(r"[.eE]", x) else ".0L") for x in v[i:i+w]) + "},")
