#!/usr/bin/env python3
"""Insert a scheduling hook before every inline-assembly instruction that accesses memory atomically."""
import re, sys
src, dst = sys.argv[1], sys.argv[2]
SUF = {'b': 1, 'w': 2, 'l': 4, 'q': 8}
MEM = re.compile(r'(%[a-z]s:)?[-+\w.$@]*\((?:%\w+)?(?:,\s*%\w+(?:,\s*\d)?)?\)|[\w.$]+\(%rip\)')
def regsize(r):
    r = r.strip().lstrip('%')
    if re.fullmatch(r'[abcd][lh]|sil|dil|bpl|spl|r\d+b', r): return 1
    if re.fullmatch(r'[abcd]x|si|di|bp|sp|r\d+w', r): return 2
    if re.fullmatch(r'e[abcd]x|e(si|di|bp|sp)|r\d+d', r): return 4
    if re.fullmatch(r'r[abcd]x|r(si|di|bp|sp)|r\d+', r): return 8
    return 0
NRMW = {'add', 'sub', 'and', 'or', 'xor', 'not', 'neg', 'inc', 'dec', 'bts', 'btr', 'btc', 'cmpxchg', 'xadd', 'adc', 'sbb', 'shl', 'shr', 'sar', 'rol', 'ror'}
BASES = NRMW | {'mov', 'xchg', 'cmp', 'test', 'bt', 'lea', 'movabs'}
hooks = 0
def hook(out, kind, n, mem):
    global hooks
    if '%rsp' in mem or '%esp' in mem:
        m = re.match(r'^([-+\w.$@]*)\(', mem)
        d = m.group(1)
        mem = ('8+' + d if d else '8') + mem[len(d):]
    out.append('\tpushq\t%rdi')
    out.append('\tpushq\t%rdi') if False else None
    out.append('\tleaq\t%s, %%rdi' % mem)
    out.append('\tpushfq')
    out.append('\tcall\tmc_asm_%s_%d' % (kind, n))
    out.append('\tpopfq')
    out.append('\tpopq\t%rdi')
    hooks += 1
def opsplit(s):
    r, d, c = [], 0, ''
    for ch in s:
        if ch == '(': d += 1
        if ch == ')': d -= 1
        if ch == ',' and d == 0: r.append(c.strip()); c = ''
        else: c += ch
    if c.strip(): r.append(c.strip())
    return r
def one(ins, out, locked):
    t = ins.strip()
    m = re.match(r'^((?:[\w.$]+:\s*)*)(.*)$', t)
    lab, t = m.group(1), m.group(2).strip()
    if lab: out.append(lab)
    if not t: return locked
    parts = t.split(None, 1)
    mn = parts[0].lower(); ops = opsplit(parts[1]) if len(parts) > 1 else []
    if mn == 'lock':
        if len(parts) > 1: return one(parts[1], out, True)
        return True
    mem = next((o for o in ops if MEM.search(o)), None)
    pre = 'lock ' if locked else ''
    if mem is not None:
        size = 0
        for o in ops:
            if o.startswith('%') and regsize(o): size = max(size, regsize(o))
        base = mn if mn in BASES else (mn[:-1] if mn[:-1] in BASES and mn[-1] in SUF else mn)
        sz = SUF[mn[-1]] if base != mn else (size or 8)
        if mn.startswith('cmpxchg16'): hook(out, 'rmw' if locked else 'nrmw', 16, mem)
        elif mn.startswith('cmpxchg8b'): hook(out, 'rmw' if locked else 'nrmw', 8, mem)
        elif locked or base == 'xchg': hook(out, 'rmw', sz, mem)
        elif re.match(r'v?mov(dqa|dqu|aps|apd|ups|upd|ntdqa|ntdq|ntps|ntpd)', mn): hook(out, 'ld' if ops[0] == mem else 'st', 16, mem)
        elif re.match(r'v?mov[qd]$', mn) and any('xmm' in o for o in ops): hook(out, 'ld' if ops[0] == mem else 'st', 8 if mn.endswith('q') else 4, mem)
        elif base == 'mov' or base == 'movabs': hook(out, 'ld' if ops[0] == mem else 'st', sz, mem)
        elif base in ('lea', 'prefetch', 'prefetchw', 'clflush', 'nop'): pass
        elif base in NRMW and ops[-1] == mem: hook(out, 'nrmw', sz, mem)
        elif mn.startswith('set'): hook(out, 'st', 1, mem)
        else: hook(out, 'ld', sz, mem)   # reads: cmp, test, bt, arithmetic with a memory source, ...
    out.append('\t' + pre + t)
    return False
out = []; inapp = False; locked = False
for line in open(src):
    l = line.rstrip('\n')
    if l.strip().startswith('#APP'): inapp = True; out.append(l); continue
    if l.strip().startswith('#NO_APP'): inapp = False; out.append(l); continue
    if not inapp or l.strip().startswith('#'):
        out.append(l); continue
    for ins in re.split(r';', l.split('#')[0]):
        if ins.strip() == '': continue
        if ins.strip().startswith('.'):
            out.append(ins); continue
        locked = one(ins, out, locked)
open(dst, 'w').write('\n'.join(out) + '\n')
print(hooks)
