#!/usr/bin/env python3
"""Generate WdtConfig.h from /repo/WdtConfig.h.in and the version in CMakeLists.txt."""
import re, sys, os
repo, out = sys.argv[1], sys.argv[2]
cm = open(os.path.join(repo, 'CMakeLists.txt')).read()
m = re.search(r'project\([^)]*VERSION\s+([0-9.]+)', cm)
v = m.group(1)
ma, mi, pa = v.split('.')
t = open(os.path.join(repo, 'WdtConfig.h.in')).read()
for k, x in (('MAJOR', ma), ('MINOR', mi), ('PATCH', pa)):
    t = t.replace('@WDT_VERSION_%s@' % k, x)
t = t.replace('@WDT_VERSION@', v)
t = re.sub(r'#cmakedefine\s+(\w+)(.*)', r'#define \1\2', t)
os.makedirs(os.path.dirname(out), exist_ok=True)
open(out, 'w').write(t)
