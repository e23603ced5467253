#!/usr/bin/env python3
"""Regenerates smp/mocks.h: for every interface of the stand-in SMP headers a
class that implements each pure virtual function by failing the contract.
Contracts derive from these and override what the code may call."""
import os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(os.path.join(V, 'smp/Smp/_smp.h')).read()
src = re.sub(r'//[^\n]*', '', src)
tok = re.compile(r'namespace\s+([\w:]+)\s*\{|(?:class|struct)\s+(\w+)\s*(final)?\s*(?::([^{;]*))?\{|\{|\}')
stack = []   # (kind, name)
classes = {}
order = []
i = 0
depth = []
for m in tok.finditer(src):
    if m.group(1):
        depth.append(('ns', m.group(1)))
    elif m.group(2):
        ns = '::'.join(n for k, n in depth if k in ('ns', 'cl'))
        depth.append(('cl', m.group(2)))
        bases = [re.sub(r'\b(public|virtual|private)\b', '', b).strip() for b in (m.group(4) or '').split(',') if b.strip()]
        classes[ns + '::' + m.group(2)] = [bases, m.end(), None, ns]
        order.append(ns + '::' + m.group(2))
    elif m.group(0) == '{':
        depth.append(('br', ''))
    else:
        if not depth:
            continue
        k, n = depth.pop()
        if k == 'cl':
            ns = '::'.join(x for kk, x in depth if kk in ('ns', 'cl'))
            classes[ns + '::' + n][2] = m.start()

def resolve(b, ns):
    b = b.lstrip(':').strip()
    parts = ns.split('::')
    for j in range(len(parts), -1, -1):
        c = '::'.join(parts[:j] + [b])
        if c in classes:
            return c
    return None

pure_re = re.compile(r'virtual\s+([^;{}]*?)\b(\w+)\s*\(([^;{}]*?)\)\s*(const)?\s*(noexcept)?\s*(override)?\s*=\s*0\s*;', re.S)

def members(c, seen):
    if c in seen:
        return []
    seen.add(c)
    bases, a, b, ns = classes[c]
    out = []
    for x in bases:
        r = resolve(x, ns)
        if r:
            out += members(r, seen)
    body = src[a:b]
    # drop nested classes
    body = re.sub(r'(class|struct)\s+\w+[^;{]*\{.*?\n  \};', '', body, flags=re.S)
    for m in pure_re.finditer(body):
        out.append((' '.join(m.group(1).split()), m.group(2), ' '.join(m.group(3).split()), m.group(4) or '', m.group(5) or '', c))
    return out

o = '''// Generated by tools/genmocks.py: the SMP interfaces with every function
// failing the contract when it is called.
#ifndef VERIF_MOCKS_H
#define VERIF_MOCKS_H
#include "spec.h"
#include <Smp/_smp.h>
[[noreturn]] inline void mock_unexpected(const char *what) {
  __spec_fail(what);
  __builtin_trap();
}
'''
for c in order:
    short = c.split('::')[-1]
    if not (short.startswith('I') and short[1:2].isupper()) or classes[c][2] is None or c.startswith('Smp::Invalid') or 'Invalid' in short \
            or short == 'ICollection':
        continue
    ms = members(c, set())
    if not ms:
        continue
    ns = classes[c][3]
    o += 'namespace %s {\nclass Mock%s : public virtual %s {\npublic:\n' % (ns, short, c.split('::')[-1])
    done = set()
    for ret, name, args, cst, noex, owner in ms:
        a2 = re.sub(r'=\s*[^,]+', '', args)
        types = re.sub(r'\b\w+\s*(,|$)', r'\1', a2)
        key = (name, types, cst)
        if key in done:
            continue
        done.add(key)
        # the types are named in the owner's namespace, which encloses or is enclosed by ns
        o += '  %s %s(%s) %s %s override { mock_unexpected("unexpected call of %s::%s"); }\n' % (ret, name, a2, cst, noex, short, name)
    o += '};\n} // namespace %s\n' % ns
o += '#endif\n'
open(os.path.join(V, 'smp/mocks.h'), 'w').write(o)
