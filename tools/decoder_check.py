#!/usr/bin/env python3
"""Compare the reference decoder (harness/src/dec.rs) with objdump on random byte strings.

Not part of any verdict: it supports the assumption that the decoder decodes as the processor does.
  python3 tools/decoder_check.py [COUNT] [SEED]"""
import os
import random
import re
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = int(sys.argv[1]) if len(sys.argv) > 1 else 200000
rnd = random.Random(int(sys.argv[2]) if len(sys.argv) > 2 else 1)

MAIN = r'''
#[allow(dead_code)]
mod dec { include!("%s"); }
use std::io::{BufRead, Write};
fn main() {
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let mut b = [0u8; 24];
        let n = l.len() / 2;
        for i in 0..n { b[i] = u8::from_str_radix(&l[2 * i..2 * i + 2], 16).unwrap(); }
        let d = dec::decode(&b, n);
        let o = |o: &dec::Opnd| format!("{} {} {} {} {} {}", o.kind, o.reg, o.base, o.index, o.scale, o.val);
        writeln!(out, "{} {} {} {} {} {} {}", d.op, d.w, d.cc, d.c, d.len, o(&d.a), o(&d.b)).unwrap();
    }
}
'''
ONE = ([0x50 + i for i in range(16)] + [0x90 + i for i in range(8)] + list(range(0xb0, 0xc0)) + [o for o in range(0x40) if o & 7 < 6]
       + [0x63] + list(range(0x70, 0x80)) + [0x80, 0x81, 0x83] + list(range(0x84, 0x8c)) + [0x8d, 0x8f, 0x99, 0xa8, 0xa9, 0xc0, 0xc1, 0xd0, 0xd1, 0xd2,
       0xd3, 0xc3, 0xc6, 0xc7, 0xc9, 0xcc, 0xe8, 0xe9, 0xeb, 0xf6, 0xf7, 0xff])
TWO = (list(range(0x40, 0x50)) + list(range(0x80, 0xa0)) + [0x05, 0xaf, 0xb6, 0xb7, 0xbe, 0xbf, 0xb8, 0xbc, 0xbd, 0x10, 0x11, 0x2a, 0x2c, 0x2e, 0x3a,
       0x51, 0x54, 0x57, 0x58, 0x59, 0x5c, 0x5d, 0x5e, 0x5f, 0x6e, 0x7e, 0xd6])


def one():
    b = []
    r = rnd.random()
    if r < .2:
        b.append(0x66)
    elif r < .45:
        b.append(rnd.choice([0xf2, 0xf3]))
    if rnd.random() < .55:
        b.append(0x40 + rnd.randrange(16))
    if rnd.random() < .5:
        b.append(rnd.choice(ONE))
    else:
        b += [0x0f, rnd.choice(TWO)]
        if b[-1] == 0x3a:
            b.append(9)
    m = rnd.randrange(256)
    b.append(m)
    while len(b) < 15:
        b.append(rnd.choice([0, 4, 5, 0x24, 0x25, 0x7f, 0x80, 0xff, rnd.randrange(256), rnd.randrange(256)]))
    return bytes(b)


Q = ['rax', 'rcx', 'rdx', 'rbx', 'rsp', 'rbp', 'rsi', 'rdi'] + ['r%d' % i for i in range(8, 16)]
D = ['eax', 'ecx', 'edx', 'ebx', 'esp', 'ebp', 'esi', 'edi'] + ['r%dd' % i for i in range(8, 16)]
W = ['ax', 'cx', 'dx', 'bx', 'sp', 'bp', 'si', 'di'] + ['r%dw' % i for i in range(8, 16)]
B = ['al', 'cl', 'dl', 'bl', 'spl', 'bpl', 'sil', 'dil'] + ['r%db' % i for i in range(8, 16)]
H = {20: 'ah', 21: 'ch', 22: 'dh', 23: 'bh'}
SIZE = {1: 'BYTE', 2: 'WORD', 4: 'DWORD', 8: 'QWORD', 16: 'XMMWORD'}
CC = ['o', 'no', 'b', 'ae', 'e', 'ne', 'be', 'a', 's', 'ns', 'p', 'np', 'l', 'ge', 'le', 'g']
NAME = dict(enumerate('bad add or adc sbb and sub xor cmp mov movsx movzx xchg lea push pop movq test neg imul div idiv'.split()))
NAME.update({24: 'rol', 25: 'ror', 28: 'shl', 29: 'shr', 31: 'sar', 32: 'lzcnt', 33: 'tzcnt', 34: 'popcnt', 38: 'movsd', 39: 'addsd', 40: 'subsd',
             41: 'mulsd', 42: 'divsd', 43: 'minsd', 44: 'maxsd', 45: 'xorps', 46: 'xorpd', 47: 'andpd', 48: 'ucomisd', 49: 'roundpd', 50: 'sqrtpd',
             51: 'sqrtsd', 52: 'cvtsi2sd', 53: 'cvttsd2si', 54: 'call', 55: 'jmp', 56: 'ret', 57: 'leave', 58: 'syscall', 59: 'int3', 60: 'nop'})


def reg(n, w):
    return H.get(n) or {8: Q, 4: D, 2: W, 1: B}[w][n]


def hx(v):
    return ('+' if v >= 0 else '-') + hex(abs(v))


def opnd(o, w, addr, n):
    kind, r, base, index, scale, val = o
    if kind == 0:
        return None
    if kind == 1:
        return reg(r, w)
    if kind == 2:
        return 'xmm%d' % r
    if kind == 4:
        m = {1: 0xff, 2: 0xffff, 4: 0xffffffff}.get(w, (1 << 64) - 1)
        return ('imm', val & m)
    if kind == 5:
        return ('rel', addr + n + val)
    return ('mem', None if base == 17 else ('rip' if base == 16 else Q[base]), None if index == 17 else Q[index], scale, val)


def parse(t, addr):
    """an operand as objdump prints it"""
    t = t.strip()
    m = re.fullmatch(r'(?:(\w+) PTR )?(?:ds:|\w\w:)?(?:\[(.*)\]|(0x[0-9a-f]+))', t)
    if m and (m.group(2) is not None or 'ds:' in t):
        base = index = None
        scale = val = 0
        if m.group(3):
            v = int(m.group(3), 16)
            return ('mem', None, None, 0, v - (1 << 64) if v >> 63 else v), m.group(1)
        for sgn, x in re.findall(r'([+-]?)([^+-]+)', m.group(2)):
            if '*' in x:
                index, k = x.split('*')
                scale = {'1': 0, '2': 1, '4': 2, '8': 3}[k]
            elif x.startswith('0x'):
                val = int(x, 16) * (-1 if sgn == '-' else 1)
                if val >= 1 << 63:
                    val -= 1 << 64
            else:
                base = x
        return ('mem', base, None if index in ('riz', 'eiz') else index, 0 if index in ('riz', 'eiz') else scale, val), m.group(1)
    if t.startswith('0x'):
        return ('imm', int(t, 16)), None
    if re.fullmatch(r'[0-9a-f]+', t) and not t.isalpha():
        return ('imm', int(t, 16)), None
    return t, None


def main():
    ins = [one() for _ in range(N)]
    t = tempfile.mkdtemp()
    try:
        rs = os.path.join(t, 'd.rs')
        open(rs, 'w').write(MAIN % os.path.join(t, 'dec.rs'))
        src = open(os.path.join(HERE, 'harness', 'src', 'dec.rs')).read()
        open(os.path.join(t, 'dec.rs'), 'w').write(re.sub(r'^//!.*\n', '', src, flags=re.M))
        subprocess.run(['rustc', '+nightly', '--edition', '2021', '-O', '-o', os.path.join(t, 'd'), rs], check=True)
        out = subprocess.run([os.path.join(t, 'd')], input='\n'.join(b.hex() for b in ins) + '\n', capture_output=True, text=True, check=True).stdout.split('\n')
        # every instruction starts at a multiple of 32, followed by nops
        with open(os.path.join(t, 'b'), 'wb') as f:
            for b in ins:
                f.write(b + b'\x90' * (32 - len(b)))
        txt = subprocess.run(['objdump', '-D', '-b', 'binary', '-m', 'i386:x86-64', '-M', 'intel', '--insn-width=16', os.path.join(t, 'b')],
                             capture_output=True, text=True, check=True).stdout
    finally:
        for f in os.listdir(t):
            os.remove(os.path.join(t, f))
        os.rmdir(t)
    dis = {}
    for l in txt.split('\n'):
        m = re.match(r'\s*([0-9a-f]+):\t([0-9a-f ]+?)\s*\t(.*)', l)
        if m:
            dis[int(m.group(1), 16)] = (len(m.group(2).split()), m.group(3))
    bad = known = same = skipped = 0
    for i, b in enumerate(ins):
        f = [int(x) for x in out[i].split()]
        op, w, cc, c, n = f[:5]
        a, bb = f[5:11], f[11:17]
        addr = 32 * i
        if addr not in dis:
            skipped += 1
            continue
        on, ot = dis[addr]
        if op == 0:
            known += 1
            continue
        got = re.sub(r'\s+#.*|\s+<.*', '', ot).strip()
        got = re.sub(r'^(?:rex\.?\w* |data16 |bnd |rex )+', '', got)
        got = re.sub(r',p[nt]$', '', got)
        m = re.match(r'(\S+)\s*(.*)', got)
        mn, ops = m.group(1), [x for x in re.split(r',(?![^\[]*\])', m.group(2)) if x]
        want = NAME.get(op) or {22: {8: 'cqo', 4: 'cdq', 2: 'cwd'}.get(w), 35: 'j' + CC[cc], 36: 'set' + CC[cc], 37: 'cmov' + CC[cc]}[op]
        if op == 9 and mn == 'movabs':
            mn = 'mov'
        if op == 10 and mn == 'movsxd':
            mn = 'movsx'
        sw = c if op in (10, 11) else w
        exp = [opnd(a, w, addr, n), opnd(bb, sw if op != 52 else w, addr, n)]
        if op in (24, 25, 28, 29, 31):
            if bb[0] == 1:
                exp[1] = 'cl'
            else:
                exp[1] = ('imm', bb[5] & 0xff)
        if op == 49:
            exp.append(('imm', c))
        if op == 28 and mn == 'sal':
            mn = 'shl'
        exp = [e for e in exp if e is not None]
        if op == 56 or op in (57, 58, 59, 60):
            exp = []
        res = [parse(x, addr) for x in ops]
        ok = want == mn and n == on and len(exp) == len(res)
        if ok:
            for k, (e, (g, size)) in enumerate(zip(exp, res)):
                if isinstance(e, tuple) and e[0] == 'rel':
                    ok &= isinstance(g, tuple) and g[1] & ((1 << 64) - 1) == e[1] & ((1 << 64) - 1)
                elif isinstance(e, tuple) and e[0] == 'mem':
                    ok &= g == e
                    ww = sw if k == 1 else w
                    if op == 53 or op == 52 and k == 1:
                        ww = 8 if op == 53 else w
                    if size and op != 13:
                        ok &= size == SIZE[ww]
                else:
                    ok &= g == e
        if ok:
            same += 1
        else:
            bad += 1
            if bad < 40:
                print('%-32s objdump: %-50s decoder: %s %s len %d/%d' % (b[:n].hex(), ot, want, exp, n, on))
    print('%d agree, %d differ, %d not decoded by the reference decoder (rejected), %d not aligned in the listing' % (same, bad, known, skipped))
    return 1 if bad else 0


sys.exit(main())
