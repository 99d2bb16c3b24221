#!/usr/bin/env python3
"""Turns gcc's x86-64 assembly into assembly that runs under the simulator.

Before every instruction that accesses memory which another thread could see, a
call of sim_stub is inserted (the scheduler's yield point).  Unlocked
read-modify-write instructions on memory are split into load / yield / modify /
store, because on real hardware another core can write in between.  cpuid,
xgetbv, rdtsc, rdtscp, rdrand and rdseed are replaced by calls of the simulated CPU.

No other instruction is touched: what runs is the compiler's code for the
library, at the optimisation level the library is shipped with.
Input must be compiled with -mno-red-zone -fno-pic.
"""
import re
import sys

SKIP = re.compile(
    r'^(lea[lqw]?|nop[lwq]?|endbr64|call|jmp|j[a-z]+|push[a-z]*|pop[qlw]?|ret|leave|'
    r'notrack|data16|rex64|hlt|ud2|cld|vzeroupper|vzeroall)$')
IMPLICIT = re.compile(r'^(v?maskmovdqu|maskmovq|(rep|repz|repe|repnz|repne)|movs[bwlq]|'
                      r'stos[bwlq]|lods[bwlq]|cmps[bwlq]|scas[bwlq])$')
EMULATED = {'cpuid': 'sim_cpuid_stub', 'xgetbv': 'sim_xgetbv_stub',
            'rdtsc': 'sim_rdtsc_stub', 'rdtscp': 'sim_rdtscp_stub'}
RMW = re.compile(r'^(add|sub|and|or|xor)([bwlq])$')
RMW1 = re.compile(r'^(inc|dec|neg|not|shl|shr|sar)([bwlq])$')
REG = {'b': '%r{}b', 'w': '%r{}w', 'l': '%r{}d', 'q': '%r{}'}
INSN = re.compile(r'^\s+([a-z][a-z0-9]*)(?:\s+(.*?))?\s*$')
# memory operand: optional displacement and a parenthesised base/index
MEM = re.compile(r'([^\s,()]*)\(([^)]*)\)')


def mem_operands(ops):
    return [(m.group(1), m.group(2)) for m in MEM.finditer(ops)]


def shared(disp, inner):
    """Whether another thread could get at this operand."""
    base = inner.split(',')[0].strip()
    if base == '%rsp':
        return False
    if disp.startswith('.LC') and base == '%rip':
        return False
    if disp == 'sim_counter':
        return False
    if disp.startswith('%fs:') or disp.startswith('%gs:'):
        return False
    return True


SYM = re.compile(r'^[*]?(?:-?\d+\+)?([A-Za-z_$][\w.$@]*|\.L(?!C)[\w.$]*)')
# in a workload's own translation unit only the library's objects count, not the workload's
LIBRARY = re.compile(r'^_Z(GVZ|GV|Z)?[LNKRO]*(\d+Vc(_\d+)?(?![a-z])|S[ta])')
READS = re.compile(r'^v?(cmp|test|ucomis|comis|ptest|testp)')


def hot(mn, ops, const, own, workload):
    """Whether it accesses a static object that can change."""
    for disp, inner in mem_operands(ops):
        m = SYM.match(disp)
        if not m or not shared(disp, inner):
            continue
        sym = m.group(1)
        if sym in const or (workload and not LIBRARY.match(sym)):
            continue
        if sym in own:
            return True
        # of another translation unit: written?
        if ops.rstrip().endswith(disp + '(' + inner + ')') and not READS.match(mn):
            return True
    return False


def sections(path):
    """Labels in sections that cannot change, labels in sections that can."""
    const, own = set(), set()
    cur = None
    for line in open(path):
        t = line.strip()
        if t.startswith('.section'):
            n = t.split()[1].split(',')[0]
            cur = const if n.startswith(('.rodata', '.text', '.data.rel.ro', '.gcc_except', '.eh_frame', '.init')) else own
            if n.startswith('.debug'):
                cur = None
        elif t in ('.text', '.data', '.bss') or t.startswith(('.text\t', '.data\t', '.bss\t')):
            cur = const if t.startswith('.text') else own
        elif t.startswith(('.comm', '.lcomm', '.local')):
            own.add(t.split()[1].split(',')[0])
        elif t.startswith('.set'):
            p = t.split(None, 1)[1].split(',')
            alias = p[0].strip()
            tgt = SYM.match(p[1].strip())
            if tgt and tgt.group(1) in own:
                own.add(alias)
            elif tgt and tgt.group(1) in const:
                const.add(alias)
        elif line[:1] not in (' ', '\t', '#') and t.endswith(':') and cur is not None:
            cur.add(t[:-1])
    return const, own


def split_ops(s):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch == '(':
            depth += 1
        elif ch == ')':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    out.append(cur.strip())
    return out


def scratch(ops):
    for n in (11, 10, 9, 8, 15, 14, 13, 12):
        if ('%r' + str(n)) not in ops:
            return n
    return None


def process(line, out, stat):
    const, own, workload = stat['sym']
    m = INSN.match(line)
    if not m:
        out.append(line)
        return
    mn, ops = m.group(1), m.group(2) or ''
    h = ops.find('#')
    if h >= 0:
        ops = ops[:h].rstrip()
    if mn in EMULATED:
        out.append('\tcall\t' + EMULATED[mn])
        stat['emu'] += 1
        return
    if mn in ('lock', 'rep', 'repz', 'repe', 'repnz', 'repne'):
        if mn.startswith('rep') and ops.split()[:1] in (['ret'], ['nop']):
            out.append(line)
            return
        out.append('\tcall\tsim_stub')
        out.append(line)
        stat['yield'] += 1
        # 'lock' alone on its line: the instruction that follows must not be split or separated
        stat['glue'] = (ops == '')
        return
    if stat.get('glue'):
        stat['glue'] = False
        out.append(line)
        return
    if SKIP.match(mn):
        out.append(line)
        return
    if IMPLICIT.match(mn):
        # movsd/movsq-like names with operands are the SSE instructions
        if not (mn.startswith(('movs', 'cmps')) and MEM.search(ops) is None and '%xmm' in ops):
            out.append('\tcall\tsim_stub')
            stat['yield'] += 1
        out.append(line)
        return
    if '(' not in ops or not any(shared(*x) for x in mem_operands(ops)):
        out.append(line)
        return
    stub = 'sim_stub_hot' if hot(mn, ops, const, own, workload) else 'sim_stub'
    out.append('\tcall\t' + stub)
    stat['yield'] += 1
    r = RMW.match(mn)
    r1 = RMW1.match(mn)
    parts = split_ops(ops)
    if (r and len(parts) == 2 and '(' in parts[1]) or (r1 and '(' in parts[-1]):
        sz = (r or r1).group(2)
        n = scratch(ops)
        if n is not None and '%rsp' not in ops:
            reg = REG[sz].format(n)
            src = (parts[0] + ', ') if len(parts) == 2 else ''
            out.append('\tpushq\t%%r%d' % n)
            out.append('\tmov%s\t%s, %s' % (sz, parts[-1], reg))
            out.append('\tcall\t' + stub)
            out.append('\t%s\t%s%s' % (mn, src, reg))
            out.append('\tmov%s\t%s, %s' % (sz, reg, parts[-1]))
            out.append('\tpopq\t%%r%d' % n)
            stat['rmw'] += 1
            return
    out.append(line)


def main():
    src, dst = sys.argv[1:3]   # a third argument: a workload
    out = []
    stat = {'yield': 0, 'rmw': 0, 'emu': 0, 'sym': sections(src) + (len(sys.argv) > 3,)}
    app = False
    with open(src) as f:
        for line in f:
            line = line.rstrip('\n')
            if line.startswith('#APP'):
                app = True
            elif line.startswith('#NO_APP'):
                app = False
            c = line[:1]
            if (c == '\t' or c == ' ') and line[1:2] != '.' and line.strip()[:1] not in ('.', '#', '/', ''):
                if app and ';' in line:
                    for part in line.split(';'):
                        if part.strip():
                            process('\t' + part.strip(), out, stat)
                else:
                    process(line, out, stat)
            else:
                out.append(line)
    with open(dst, 'w') as f:
        f.write('\n'.join(out))
        f.write('\n')


main()
