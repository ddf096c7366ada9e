#!/usr/bin/env python3
"""Writes harness/c22/enums_test.go: every enum constant of the protocol definition (harness/c22/proto)."""
import glob, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out, imports = [], []
for p in sorted(glob.glob(here + '/harness/c22/proto/*.proto')):
    pkg = os.path.basename(p)[:-6]
    s = open(p).read()
    full = re.search(r'package ([\w.]+);', s).group(1)
    imports.append('"github.com/renthraysk/xtorm/protobuf/%s"' % pkg)
    toks = re.findall(r'"[^"]*"|[\w.]+|[^\s\w]', s)
    stack, i, used = [], 0, False
    while i < len(toks):
        t = toks[i]
        if t in ('message', 'enum', 'extend') and toks[i + 2] == '{':
            stack.append((t, toks[i + 1])); i += 3; continue
        if t == '}':
            stack.pop(); i += 1; continue
        if stack and stack[-1][0] == 'enum':
            name, num = t, toks[i + 2]
            msgs = [n for k, n in stack if k == 'message']
            enum = '.'.join([full] + msgs + [stack[-1][1]])
            go = '_'.join(msgs) if msgs else stack[-1][1]
            out.append('\t{"%s", "%s", %s, int32(%s.%s_%s), %s.%s_%s.String(), %s.%s_%s.Enum()},' % ((enum, name, num) + (pkg, go, name) * 3))
            used = True
            i += 4; continue
        i += 1
    if not used:
        imports[-1] = '_ ' + imports[-1]
open(here + '/harness/c22/enums_test.go', 'w').write('''package c22

// Made by tools/mkenums.py from the protocol definition in proto/.

import (
\t%s
)

// constants are the enum constants of the bindings: the enum, the name and number it has in
// the definition; the constant's value, text and what Enum points to.
var constants = []struct {
\tenum, name string
\tnum        int32
\tgot        int32
\ttext       string
\tptr        interface{}
}{
%s
}
''' % ('\n\t'.join(imports), '\n'.join(out)))
