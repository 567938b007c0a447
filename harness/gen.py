#!/usr/bin/env python3
"""Write the harness source of one property: gen.py PROPERTY TIER OUTDIR"""
import os
import re
import shutil
import sys

from forms import *

# one or more mnemonics per way an instruction reaches the encoder
REP = ('movq movl movw movb movsxl movzxb xchgq lea pushq popq addq cmpl subw xorb testq testb negq imul idivl shlq rorl '
       'popcntq seto cmovneq cmovgw movsd ucomisd roundpd cvtsi2sdq cvttsd2siq xorps sqrtpd call jmp').split()

HEAD = '''use crate::dec::*;
use crate::rt::*;
use crate::util::*;
use monoasm::*;
use monoasm_macro::monoasm;
'''


def dedupe(fs):
    seen = {}
    for f in fs:
        assert f.name not in seen, f.name
        seen[f.name] = f
    return fs


def all_forms(shapes):
    return (mov_forms(shapes) + alu_forms(shapes) + shift_forms(shapes) + cond_forms(shapes) + sse_forms(shapes)
            + ctl_forms(shapes))


def emit(fs, pid):
    return ''.join(f.rust(f'h_{pid.lower()}_{f.name}') for f in dedupe(fs))


def emit_label(fs, pid):
    return ''.join(f.rust_label(f'h_{pid.lower()}_{f.name}') for f in dedupe(fs))


def template(name, tier):
    """expand /// @for a,b in 1,x 2,y ... /// @end and /// @thorough ... /// @end"""
    out, stack = [], []
    cur = out
    for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'hc', name + '.rs')).read().split('\n'):
        m = re.match(r'\s*/// @for (\S+) in (.*)', l)
        t = re.match(r'\s*/// @(thorough|quick)\s*$', l)
        if m or t:
            stack.append((m, t, cur))
            cur = []
        elif l.strip() == '/// @end':
            m, t, up = stack.pop()
            if m:
                vs = m.group(1).split(',')
                for row in m.group(2).split():
                    xs = row.replace(r'\x20', ' ').split(',', len(vs) - 1)
                    assert len(xs) == len(vs), row
                    for x in cur:
                        for v, y in zip(vs, xs):
                            x = re.sub('@' + v + r'(?![a-z])', y, x)
                        up.append(x)
            elif t.group(1) == tier:
                up.extend(cur)
            cur = up
        else:
            cur.append(l)
    assert not stack
    return '\n'.join(out)


KEYWORDS = set("""as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return
self static struct super trait true type unsafe use where while async await dyn abstract become box do final macro override
priv typeof unsized virtual yield try gen _""".split())


def names19(tier):
    """variable names an operand expression may use: common ones, and every name bound anywhere in the macro"""
    fixed = 'imm imm8 imm32 op op1 op2 op3 rm rm_op reg disp base index scale label dest r x i v n l s e tmp val rax cl xmm0'.split()
    found = set()
    d = '/repo/monoasm_macro/src'
    for f in sorted(os.listdir(d)):
        if f.endswith('.rs'):
            t = open(os.path.join(d, f)).read()
            found |= set(re.findall(r'(?:\blet\s+(?:mut\s+)?|\b(?:Ok|Some|Err)\(|\bfor\s+|\|)\s*(?:mut\s+|ref\s+)?([a-z_][a-z0-9_]*)', t))
            found |= set(re.findall(r'\blet\s*\(\s*([a-z_][a-z0-9_]*)', t))
            found |= set(re.findall(r'\blet\s*\([^)]*?,\s*([a-z_][a-z0-9_]*)\s*\)', t))
    # inside a block, jit is the generator itself
    return sorted((set(fixed) | found) - KEYWORDS - {'jit', 'new', 'check', 'any'})


def c19(tier):
    """blocks of instructions whose every operand is an expression over one variable of a given name"""
    shapes = [M0] + ([(True, 2, 'n')] if tier == 'thorough' else [])
    fs = []
    for f in all_forms(shapes):
        if any(o.kind in ('cr', 'g') for o in f.opds) or not f.opds:
            continue
        if tier == 'thorough' or f.name.split('_')[0] in REP:
            fs.append(f)
    probe = [f for f in fs if f.name == 'movq_r_i'][0]
    size = 24
    out = []

    def text(f, x, ty):
        t = f.text().replace('(md)', '(@D)').replace('(v)', '(@V)')
        if ty == 'u64':
            t = re.sub(r'\((r1|r2|x3|x4|mb|mx)\)', f'({x})', t)
        else:
            for p, y in (('R(r1)', 'rdx'), ('R(r2)', 'rbx'), ('R(mb)', 'rsi'), ('R(mx)', 'r9'), ('xmm(x3)', 'xmm5'), ('xmm(x4)', 'xmm6')):
                t = t.replace(p, y)
        t = t.replace('(@D)', f'({x} as i32 * 9 + 1)')
        return t.replace('(@V)', f'({x} as u8 * 5 + 7)' if f.mn == 'roundpd' else f'({x} as i64 * 5 + 7)')

    # registers too, with a variable of their type; or only immediates and displacements, with one of theirs
    kinds = []
    for ty in ('u64', 'i64'):
        sel = [f for f in fs if ty == 'u64' or any(o.kind in 'mi' for o in f.opds)]
        chunks = [sel[i:i + size] + [probe] for i in range(0, len(sel), size)]
        kinds += [(ty, f'{ty}_{k}', c) for k, c in enumerate(chunks)]
    for ty, k, c in kinds:
        regs = '(q, q, q, q, q, q)' if ty == 'u64' else '(2, 3, 5, 6, 6, 9)'
        body = ''
        for f in c:
            v = 'let v = (q * 5 + 7) as u8; ' if f.mn == 'roundpd' else ''
            body += f'    {{ let d = next(jit, base, &mut off); {v}{f.body} }}\n'
        out.append(f'''
#[inline(never)]
fn c19_check_{k}(jit: &JitMemory, base: *mut u8, q: u64) {{
    let (r1, r2, x3, x4, mb, mx): (u64, u64, u64, u64, u64, u64) = {regs};
    let md = q as i32 * 9 + 1;
    let v = q as i64 * 5 + 7;
    let mut off = 0;
{body}    check(off == jit.get_current(), 8);
}}
''')
    for x in names19(tier):
        for ty, k, c in kinds:
            out.append(f'''
#[inline(never)]
fn c19_block_{x}_{k}(asm: &mut JitMemory, {x}: {ty}) {{
    monoasm!(&mut *asm, {' '.join(text(f, x, ty) for f in c)});
}}
#[no_mangle]
pub extern "C" fn h_c19_{x}_{k}() {{
    let q = 8 + any(1, 2);
    let (mut m, base) = new();
    c19_block_{x}_{k}(&mut m, q as {ty});
    c19_check_{k}(&m, base, q);
}}
''')
        # as an operand of a jump or behind rip + these are registers
        if x in GPRS + ['cl', 'rip']:
            continue
        out.append(f'''
#[inline(never)]
fn c19_label_{x}(asm: &mut JitMemory, {x}: DestLabel) {{
    monoasm!(&mut *asm, addq rax, 300; movq rcx, 7; movq xmm3, rax; movq rax, xmm1; movb rdx, 3; jmp {x}; lea rax, [rip + {x}]; movb [rip + {x}], 5; jne {x}; {x}: ret;);
}}
#[no_mangle]
pub extern "C" fn h_c19_label_{x}() {{
    let (mut m, base) = new();
    let other = m.label();
    let q = m.label();
    c19_label_{x}(&mut m, q);
    m.finalize();
    let want = m.get_label_u64(q) as i64 - base as i64;
    let mut off = 0;
    for i in 0..9 {{
        let d = next(&m, base, &mut off);
        match i {{
            5 => check(d.op == JMP && d.a.val == want - off as i64, 10),
            6 => is_mem(&d.b, 16, 17, 0, want - off as i64, 20),
            7 => is_mem(&d.a, 16, 17, 0, want - off as i64, 30),
            8 => check(d.op == JCC && d.a.val == want - off as i64, 40),
            _ => {{}}
        }}
    }}
    check(want == off as i64, 50);
}}
''')
    return ''.join(out)


# one mnemonic per way the operands of an instruction are read
SIG = ('movq movl addb movsxl xchgq testb shll setne cmovgtl negq imul divl movsd addsd lea cvtsi2sdq cvttsd2siq pushq call jmp '
       'ucomisd roundpd popcntq sqrtsd').split()


def c21(tier):
    """register names in every operand position; aliases"""
    thorough = tier == 'thorough'
    out = []
    names = {'r1': ('R(r1)', 16), 'r2': ('R(r2)', 16), 'mb': ('R(mb)', 17), 'mx': ('R(mx)', 16), 'x3': ('xmm(x3)', 16), 'x4': ('xmm(x4)', 16)}

    def spelled(var, n, case):
        if var[0] == 'x':
            return f'xmm{n}'
        g = (GPRS + ['rip'])[n]
        return [g, g.upper(), g.capitalize()][case]

    shapes = [M0, M4, (False, 0, '')]
    fs = [f for f in all_forms(shapes) if not any(o.kind in ('cr', 'cl', 'g') for o in f.opds)]
    for f in fs:
        sig = f.name.split('_')[0] in (REP if thorough else SIG)
        for var, (txt, n) in names.items():
            if txt not in f.text():
                continue
            if var in ('mb', 'mx') and not (sig and (thorough or f.mn in ('movq', 'addb', 'movsd', 'jmp', 'pushq'))):
                continue
            lo = ' | '.join(f'({o.lo})' for o in f.opds if o.lo != 'false') or 'false'
            hi = ' | '.join(f'({o.hi})' for o in f.opds if o.hi != 'false') or 'false'
            setup = [o.setup for o in f.opds if o.setup]
            bits = 5 if var[0] == 'm' else 4
            old = f'let {var} = any({ {"r1": 1, "r2": 2, "x3": 3, "x4": 4, "mb": 20, "mx": 21}[var]}, {bits});'
            assert any(old in x for x in setup), (f.name, var)
            setup = [x.replace(old, f'let {var} = choice(70, {n if sig else 2}) {"" if sig else "* K + J"};') for x in setup]
            cases = range(1 if var[0] == 'x' else 2)
            if sig:
                ns = list(range(n))
            else:
                # two of the names, others for every form
                h = sum(map(ord, f.name)) % 16
                ns = sorted({h, (h + 9) % 16})
                setup = [x.replace('* K + J', f'* {ns[1] - ns[0]} + {ns[0]}') for x in setup]
                cases = [h % 2 if var[0] != 'x' else 0]
            arms = ''
            for k in ns:
                for c in cases:
                    last = k == ns[-1] and c == list(cases)[-1]
                    pat = '_' if last else f'({k}, {c})'
                    arms += f'        {pat} => {{ monoasm!(&mut jit, {f.text().replace(txt, spelled(var, k, c if c < 1 or k % 3 else 2))}); }}\n'
            cc = 'choice(71, 2)' if len(list(cases)) == 2 else str(list(cases)[0])
            sep = '\n    '
            out.append(f'''
#[no_mangle]
pub extern "C" fn h_c21_{f.name}_{var}() {{
    {sep.join(setup)}
    let (mut jit, base) = new();
    panic_if({lo}, {hi});
    match ({var}, {cc}) {{
{arms}    }}
    panic_end();
    let d = one(&jit, base);
    {f.body}
}}
''')
    # aliases, and the names of the call and jump targets
    al = [f for f in cond_forms([M0]) + alu_forms([M0]) + shift_forms([M0]) if f.opds and f.opds[-1].kind == 'r' or f.mn[:3] in ('set', 'sal', 'idi', 'div')]
    al = [f for f in al if f.mn[:3] in ('set', 'cmo', 'sal', 'shl', 'idi', 'div')]
    al += [f for f in ctl_forms([M0]) if f.opds and f.opds[0].kind == 'g']
    up = []
    for f in ctl_forms([M0]):
        if f.opds and f.opds[0].kind == 'g':
            o = f.opds[0]
            up.append(Form(f.name + '_upper', f.mn, [Opd('g', '', o.text.upper(), o.chk, tag=o.tag)], f.body))
    for f in al + up:
        f.name = 'alias_' + f.name
    return ''.join(out) + emit(al + up, 'C21') + emit_label(jcc_forms(), 'C21')


def c08_literals(shapes):
    """immediates written as literals"""
    lits = ['0', '1', '2', '8', '63', '64', '127', '128', '255', '0x7fff', '32_768', '65535', '2147483647', '0x8000_0000', '4294967295']
    out = []
    for f in all_forms(shapes):
        if not f.imm or f.name == 'movq_r_qword':
            continue
        f = f.only('imm')
        lo = ' | '.join(f'({o.lo})' for o in f.opds if o.lo != 'false') or 'false'
        hi = ' | '.join(f'({o.hi})' for o in f.opds if o.hi != 'false') or 'false'
        setup = '\n    '.join(o.setup.replace('any(30, 64) as i64', 'LITS08[choice(30, %d) as usize]' % len(lits)) for o in f.opds if o.setup)
        n = f.text().count('(v)')
        assert n == 1, f.text()
        ls = lits[:-2] if f.mn[-1] == 'b' else lits
        setup = setup.replace('choice(30, %d)' % len(lits), 'choice(30, %d)' % len(ls))
        paren = '(%s)' if f.mn == 'call' else '%s'
        arms = ''.join('        %s => { monoasm!(&mut jit, %s); }\n' % (int(x.replace('_', ''), 0) if x != ls[-1] else '_', f.text().replace('(v)', paren % x)) for x in ls)
        out.append(f'''
#[no_mangle]
pub extern "C" fn h_c08_lit_{f.name}() {{
    {setup}
    let (mut jit, base) = new();
    panic_if({lo}, {hi});
    match v {{
{arms}    }}
    panic_end();
    let d = one(&jit, base);
    {f.body}
}}
''')
    return 'const LITS08: [i64; %d] = [%s];\n' % (len(lits), ', '.join(lits)) + ''.join(out)


def c20_chains(tier):
    """every pair of neighbouring instructions, as text: the bytes are those of the instructions alone"""
    fs = []
    for f in all_forms([M0]):
        if f.name.split('_')[0] in REP + 'ret leave cqo cdq int3 syscall jmp call subq movsxw divq sarl'.split() and not any(o.kind == 'cr' for o in f.opds):
            if any(o.kind == 'g' for o in f.opds) and o_name(f) not in ('rbx', 'r9'):
                continue
            fs.append(f)
    if tier != 'thorough':
        # one operand combination of each, alternating
        fs = fs[::2]
    named = {'R(r1)': 'rbx', 'R(r2)': 'r9', 'R(mb)': 'rbx', 'R(mx)': 'r9', 'xmm(x3)': 'xmm3', 'xmm(x4)': 'xmm9'}

    def text(f, style):
        t = f.text()
        if style == 1:
            for a, b in named.items():
                t = t.replace(a, b)
            t = t.replace('(md)', '8')
            if f.mn != 'call':
                t = t.replace('(v)', '8')
        elif f.mn == 'roundpd':
            t = t.replace('(v)', '(v as u8)')
        return t

    out = ['fn chain_start(m: &mut JitMemory, s: &mut [u64; 256], n: &mut usize) { s[*n] = m.get_current() as u64; *n += 1; }\n']
    for style in (0, 1):
        # the instructions alone, one macro block each
        alone = ''.join('    chain_start(m, s, &mut n);\n    monoasm!(&mut *m, %s);\n' % text(f, style) for f in fs)
        out.append(f'''
#[inline(never)]
fn chain_alone_{style}(m: &mut JitMemory, s: &mut [u64; 256], a: &[u64; 6], md: i32, v: i64) {{
    let [r1, r2, x3, x4, mb, mx] = *a;
    let mut n = 0;
{alone}    chain_start(m, s, &mut n);
}}
''')
        for i, f in enumerate(fs):
            seq = [i]
            for j in range(len(fs)):
                seq += [j, i]
            out.append(f'''
#[inline(never)]
fn chain_{style}_{i}(m: &mut JitMemory, a: &[u64; 6], md: i32, v: i64) {{
    let [r1, r2, x3, x4, mb, mx] = *a;
    monoasm!(&mut *m, {' '.join(text(fs[j], style) for j in seq)});
}}
#[no_mangle]
pub extern "C" fn h_c20_chain_{style}_{i}() {{
    let md = 1000 + any(22, 8) as i32;
    let v = 2 + any(30, 5) as i64;
    let a = [8 + any(1, 2), 8 + any(2, 2), 8 + any(3, 2), any(4, 2), 8 + any(20, 2), 8 + any(21, 2)];
    let (mut one, b) = new();
    let mut s = [0u64; 256];
    chain_alone_{style}(&mut one, &mut s, &a, md, v);
    let (mut jit, base) = new();
    chain_{style}_{i}(&mut jit, &a, md, v);
    const SEQ: [usize; {len(seq)}] = {seq};
    let mut off = 0;
    let mut k = 0;
    while k < SEQ.len() {{
        let j = SEQ[k];
        let n = s[j + 1] - s[j];
        same_bytes(base, off, b, s[j], n, 10);
        off += n;
        k += 1;
    }}
    check(jit.get_current() as u64 == off, 11);
}}
''')
    return ''.join(out)


def o_name(f):
    return f.opds[0].text


def c21_pairs(tier):
    """two register names in one instruction, in particular the same name twice"""
    out = []
    shapes = [M0, M4]
    pairs = [('r1', 'r2'), ('r1', 'mb'), ('mb', 'mx'), ('x3', 'x4'), ('r1', 'x3'), ('x3', 'mb')]
    txt = {'r1': 'R(r1)', 'r2': 'R(r2)', 'mb': 'R(mb)', 'mx': 'R(mx)', 'x3': 'xmm(x3)', 'x4': 'xmm(x4)'}
    tag = {'r1': 1, 'r2': 2, 'x3': 3, 'x4': 4, 'mb': 20, 'mx': 21}
    for f in all_forms(shapes):
        if any(o.kind in ('cr', 'cl', 'g') for o in f.opds):
            continue
        sig = f.name.split('_')[0] in REP
        if not sig and tier != 'thorough' and any(o.kind == 'm' for o in f.opds):
            continue
        for x, y in pairs:
            t = f.text()
            if txt[x] not in t or txt[y] not in t:
                continue
            same = x[0] == y[0] or {x[0], y[0]} == {'r', 'm'}
            reg = lambda v, n: f'xmm{n}' if v[0] == 'x' else GPRS[n]
            # the same name twice, and different ones
            ps = [(n, n) for n in (range(16) if sig else (0, 1, 4, 5, 8, 12, 13))] if same else []
            if sig or not same:
                ps += [(n, (n * 7 + 3) % 16) for n in range(0, 16, 3)] + [(0, 1), (1, 0), (8, 0), (0, 8)]
            ps = sorted(set(ps))
            # rsp is no index
            if y == 'mx':
                ps = [p for p in ps if p[1] != 4]
            lo = ' | '.join(f'({o.lo})' for o in f.opds if o.lo != 'false') or 'false'
            hi = ' | '.join(f'({o.hi})' for o in f.opds if o.hi != 'false') or 'false'
            setup = [o.setup for o in f.opds if o.setup]
            for q, v in ((0, x), (1, y)):
                old = f'let {v} = any({tag[v]}, {5 if v[0] == "m" else 4});'
                assert any(old in z for z in setup), (f.name, v)
                setup = [z.replace(old, f'let {v} = PS[pk][{q}];') for z in setup]
            arms = ''.join('        %s => { monoasm!(&mut jit, %s); }\n' % (k if k < len(ps) - 1 else '_', t.replace(txt[x], reg(x, a)).replace(txt[y], reg(y, b)))
                           for k, (a, b) in enumerate(ps))
            sep = '\n    '
            out.append(f'''
#[no_mangle]
pub extern "C" fn h_c21_pair_{f.name}_{x}_{y}() {{
    const PS: [[u64; 2]; {len(ps)}] = {[list(p) for p in ps]};
    let pk = choice(70, {len(ps)}) as usize;
    {sep.join(setup)}
    let (mut jit, base) = new();
    panic_if({lo}, {hi});
    match pk {{
{arms}    }}
    panic_end();
    let d = one(&jit, base);
    {f.body}
}}
''')
    return ''.join(out)


def c26(tier):
    """every operand expression counts its evaluations"""
    shapes = [M0, (True, 4, 'n')] + ([(False, 0, ''), (True, 0, 'e')] if tier == 'thorough' else [])
    out = ["""
#[inline(always)]
fn once<T>(n: &mut u32, v: T) -> T {
    *n += 1;
    v
}
"""]

    def counted(t):
        k = [0]

        def sub(m):
            k[0] += 1
            return '(once(&mut n[%d], %s))' % (k[0] - 1, m.group(1))
        return re.sub(r'\((r1|r2|x3|x4|mb|mx|md|v)\)', sub, t), k[0]

    fs = [f for f in dedupe(all_forms(shapes)) if counted(f.text())[1]]
    for f in fs:
        setup = '\n    '.join(o.setup for o in f.opds if o.setup)
        hi = ' | '.join(f'({o.hi})' for o in f.opds if o.hi != 'false') or 'false'
        t, k = counted(f.text())
        out.append(f'''
#[no_mangle]
pub extern "C" fn h_c26_{f.name}() {{
    {setup}
    assume(!({hi}));
    let (mut jit, base) = new();
    let mut n = [0u32; {k}];
    let mut g = 0u32;
    monoasm!(once(&mut g, &mut jit), {t});
    check(g == 1, 80);
    let mut i = 0;
    while i < {k} {{
        check(n[i] == 1, 81 + i as u32);
        i += 1;
    }}
    let d = one(&jit, base);
    {f.body}
}}
''')
    # a whole block: one evaluation each, in the order of the instructions
    chunk = 24
    for c in range(0, len(fs), chunk):
        body, k = '', 0
        for f in fs[c:c + chunk]:
            v = {'v': 'v as u8'} if f.mn == 'roundpd' else {}
            body += re.sub(r'\((r1|r2|x3|x4|mb|mx|md|v)\)', lambda m: '(step(&mut n, &mut bad, %d, %s))' % (k, v.get(m.group(1), m.group(1))), f.text()) + ' '
            k += 1
        out.append(f'''
#[no_mangle]
pub extern "C" fn h_c26_block_{c // chunk}() {{
    let (r1, r2, x3, x4) = (8 + any(1, 2), 1u64, 8 + any(3, 2), any(4, 2));
    let (mb, mx) = (8 + any(20, 2), 8 + any(21, 2));
    let md = 1000 + any(22, 8) as i32;
    let v = 2 + any(30, 5) as i64;
    let (mut jit, _) = new();
    let (mut n, mut bad) = (0u32, false);
    monoasm!(&mut jit, {body});
    check(!bad, 80);
    check(n == {k - 1}, 81);
}}
''')
    out.append("""
/// evaluations belong to the instruction in turn
#[inline(always)]
fn step<T>(n: &mut u32, bad: &mut bool, k: u32, v: T) -> T {
    *bad |= *n > k;
    *n = k;
    v
}
""")
    return ''.join(out)


def c01_labels(tier):
    """a label is resolved relative to rip: no other base, and no index, can be combined with it"""
    out = []
    for f in dedupe(all_forms(['L'])):
        t = f.text()
        if '[rip + l]' not in t or tier != 'thorough' and f.name.split('_')[0] not in REP:
            continue
        setup = '\n    '.join(o.setup for o in f.opds if o.setup)
        lo = ' | '.join(['(mb != 16)'] + [f'({o.lo})' for o in f.opds if o.lo != 'false'])
        hi = ' | '.join(['(mb != 16)'] + [f'({o.hi})' for o in f.opds if o.hi != 'false'])
        out.append(f'''
#[no_mangle]
pub extern "C" fn h_c01_label_{f.name}() {{
    {setup}
    let mb = any(8, 5); assume(mb <= 16);
    let mx = any(9, 5); assume(mx <= 16);
    let (mut jit, base) = new();
    let l = jit.label();
    let k = choice(70, 4);
    if k == 0 {{
        panic_if({lo}, {hi});
        monoasm!(&mut jit, {t.replace('[rip + l]', '[R(mb) + l]')});
    }} else {{
        panic_if(true, true);
        match k {{
            1 => monoasm!(&mut jit, {t.replace('[rip + l]', '[rbx + l]')}),
            2 => monoasm!(&mut jit, {t.replace('[rip + l]', '[R(mb) + R(mx)*4 + l]')}),
            _ => monoasm!(&mut jit, {t.replace('[rip + l]', '[rsi + R(mx) + l]')}),
        }}
    }}
    panic_end();
    let d = one(&jit, base);
    let m = memop(&d);
    check((m.kind == K_MEM) & (m.base as u64 == 16) & (m.index == NOREG), 60);
}}
''')
    return ''.join(out)


def c01_spellings():
    """displacements as literals in every spelling"""
    ds = [('+ 0x10', 16), ('+ 0x7fff_ffff', 0x7fffffff), ('- 0x80', -128), ('- 0x81', -129), ('+ 0b101', 5), ('+ 0o17', 15), ('+ 1_000', 1000), ('+ 8i32', 8), ('- 8i32', -8),
          ('+ -8', -8), ('- -8', 8), ('+ -128', -128), ('+ -129', -129), ('- -127', 127), ('- -128', 128), ('+ 0', 0), ('- 0', 0), ('+ -2147483648', -2147483648), ('- -2147483647', 2147483647),
          ('- 2147483647', -2147483647), ('+ 007', 7)]
    out = []
    for n, pre, post, mem in (('load', 'movq R(r), [', '];', 'd.b'), ('store', 'addl [', '], R(r);', 'd.a')):
        for k, idx, x, sc in (('b', '', '17', 0), ('i', ' + R(x)', 'x', 0), ('s', ' + R(x)*8', 'x', 3)):
            arms = ''.join(f'        {i if i < len(ds) - 1 else "_"} => monoasm!(&mut jit, {pre}R(b){idx} {t}{post}),\n' for i, (t, _) in enumerate(ds))
            out.append(f'''
#[no_mangle]
pub extern "C" fn h_c01_spelling_{n}_{k}() {{
    let (r, b, x) = (any(1, 4), any(2, 4), any(3, 4));
    assume(x != 4);
    let k = choice(10, {len(ds)});
    let (mut jit, base) = new();
    match k {{
{arms}    }}
    let want = [{', '.join(str(v) for _, v in ds)}][k as usize] as i64;
    let d = one(&jit, base);
    is_mem(&{mem}, b, {x}, {sc}, want, 10);
}}
''')
    return ''.join(out)


def c27(tier):
    """register numbers of 64 bits"""
    shapes = [M0, M4] + ([(False, 0, ''), (True, 1, 'n')] if tier == 'thorough' else [])
    out = []
    for f in dedupe(all_forms(shapes)):
        t = f.text()
        names = [v for v in ('r1', 'r2', 'x3', 'x4', 'mb', 'mx') if re.search(r'\(%s\)' % v, t)]
        if not names:
            continue
        setup = '\n    '.join(o.setup for o in f.opds if o.setup)
        for v in names:
            setup = re.sub(r'let %s = any\((\d+), [45]\);( assume\(%s <= 16\);)?' % (v, v), r'let %s = any(\1, 64);' % v, setup)
        none = ' | '.join(f'({v} > {16 if v == "mb" else 15})' for v in names)
        lo = ' | '.join([none] + [f'({o.lo})' for o in f.opds if o.lo != 'false'])
        hi = ' | '.join([none] + [f'({o.hi})' for o in f.opds if o.hi != 'false'])
        out.append(f'''
#[no_mangle]
pub extern "C" fn h_c27_{f.name}() {{
    {setup}
    let (mut jit, base) = new();
    panic_if({lo}, {hi});
    monoasm!(&mut jit, {t});
    panic_end();
    let d = one(&jit, base);
    {f.body}
}}
''')
    return ''.join(out)


# properties of the macro itself
MACRO = ('C23',)
MAC_HEAD = '''use crate::rt::*;
'''


def macro_sources(out):
    """the sources of the macro as a module `mac` that works on proc_macro2 token streams outside of the compiler"""
    d = '/repo/monoasm_macro/src'
    dst = os.path.join(out, 'mac')
    shutil.rmtree(dst, ignore_errors=True)
    for r, _, fs in os.walk(d):
        to = os.path.join(dst, os.path.relpath(r, d))
        os.makedirs(to, exist_ok=True)
        for f in sorted(fs):
            if not f.endswith('.rs'):
                continue
            t = open(os.path.join(r, f)).read()
            t = re.sub(r'^\s*#!\[.*?\]\s*$', '', t, flags=re.M)
            t = re.sub(r'\bcrate::', 'crate::gen::mac::', t)
            t = re.sub(r'^\s*extern\s+crate\s+proc_macro\s*;', '', t, flags=re.M)
            t = re.sub(r'\bproc_macro::', 'proc_macro2::', t)
            t = re.sub(r'\bproc_macro2::Diagnostic', 'proc_macro::Diagnostic', t)
            t = re.sub(r'^\s*#\[proc_macro\]', '', t, flags=re.M)
            t = re.sub(r'^\s*use\s+syn::parse_macro_input\s*;', '', t, flags=re.M)
            t = re.sub(r'\buse\s+syn::\{[^;]*;', lambda m: re.sub(r'\bparse_macro_input\b\s*,?', '', m.group(0)), t)
            t = t.replace('syn::parse_macro_input!', 'parse_macro_input!')
            t = re.sub(r'\bsyn::parse(\(|::<)', r'syn::parse2\1', t)
            if r == d and f == 'lib.rs':
                f = 'mod.rs'
            open(os.path.join(to, f), 'w').write(t)
    return '''
macro_rules! parse_macro_input {
    ($t:ident as $ty:ty) => {
        match syn::parse2::<$ty>($t) {
            Ok(v) => v,
            Err(e) => return crate::gen::refuse(e),
        }
    };
    ($t:ident with $p:path) => {
        match syn::parse::Parser::parse2($p, $t) {
            Ok(v) => v,
            Err(e) => return crate::gen::refuse(e),
        }
    };
    ($t:ident) => {
        parse_macro_input!($t as _)
    };
}
#[allow(unused, dead_code, unreachable_patterns)]
#[path = "%s/mod.rs"]
pub mod mac;
''' % dst


def syntax():
    """mnemonics and the operands they take, for the reference grammar of C23"""
    sig = {}
    for f in all_forms([M0]) + jcc_forms() + branch_forms():
        k = ''.join('q' if o.text.startswith('qword') else 'p' if o.kind == 'i' and f.mn == 'call' else
                    {'cr': 'r', 'cl': 'r'}.get(o.kind, o.kind) for o in f.opds)
        sig.setdefault(f.mn, set()).add(k)
    by = {}
    for m, s in sig.items():
        by.setdefault(tuple(sorted(s)), []).append(m)
    rows = ''.join('    (&[%s], &[%s]),\n' % (', '.join('b"%s"' % x for x in s), ', '.join('b"%s"' % m for m in sorted(ms))) for s, ms in sorted(by.items()))
    return 'const SYNTAX: &[(&[&[u8]], &[&[u8]])] = &[\n%s];\n' % rows


def gen(pid, tier):
    thorough = tier == 'thorough'
    shapes = [M0, (False, 0, '')] + [(True, k, 'e') for k in (0, 1, 2, 4, 8)]
    if True:
        shapes += [(False, 0, 'n'), (True, 0, ''), (True, 8, ''), (True, 0, 'n'), (True, 4, 'n'), (False, 0, 1), (False, 0, -129), (True, 2, 127)]
    if pid == 'C01':
        # every kind of encoder with every shape; the other properties run their forms with fewer shapes
        lits = (1, -1, 127, 128, -128, -129, 2147483647, -2147483647)
        full = [(False, 0, d) for d in ('e', 'n', '') + lits]
        full += [(True, k, d) for k in (0, 1, 2, 4, 8) for d in ('e', 'n', '') + (lits if thorough else lits[2:6])]
        sel = all_forms(full) if thorough else [f for f in all_forms(full) if f.name.split('_')[0] in REP]
        return emit([f.only('mem') for f in sel if any(o.kind == 'm' for o in f.opds)], pid) + c01_labels(tier) + c01_spellings()
    if pid == 'C02':
        return emit(mov_forms(shapes), pid)
    if pid == 'C03':
        return emit(alu_forms(shapes), pid)
    if pid == 'C04':
        return emit(shift_forms(shapes), pid)
    if pid == 'C05':
        return emit(cond_forms(shapes), pid) + emit_label(jcc_forms(), pid)
    if pid == 'C06':
        return emit(sse_forms(shapes), pid)
    if pid == 'C07':
        return emit(ctl_forms(shapes), pid) + emit_label(branch_forms(), pid)
    if pid == 'C08':
        return emit([f.only('imm') for f in all_forms(shapes) if f.imm], pid) + c08_literals([M0] if not thorough else [M0, M4])
    if pid == 'C09':
        fs = [f for f in all_forms(['L']) if any(o.kind == 'm' for o in f.opds)]
        fs = [f.only('mem') for f in fs + jcc_forms() + branch_forms()]
        return emit_label(fs, pid) + template(pid, tier)
    if pid == 'C20':
        fs = all_forms([M0, M4] + ([(False, 0, ''), (True, 1, 'n')] if thorough else []))
        return ''.join(f.rust_ctx(f'h_c20_{f.name}') for f in dedupe(fs)) + template(pid, tier) + c20_chains(tier)
    if pid == 'C21':
        return template(pid, tier) + c21(tier) + c21_pairs(tier)
    if pid == 'C27':
        return c27(tier)
    if pid == 'C26':
        return c26(tier)
    if pid == 'C19':
        return template(pid, tier) + c19(tier)
    if pid == 'C23':
        return syntax() + template(pid, tier)
    if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'hc', pid + '.rs')):
        return template(pid, tier)
    raise SystemExit('unknown property ' + pid)


def main():
    pid, tier, out = sys.argv[1:4]
    os.makedirs(out, exist_ok=True)
    if pid in MACRO:
        src = MAC_HEAD + macro_sources(os.path.abspath(out)) + gen(pid, tier)
    else:
        src = HEAD + gen(pid, tier)
    names = re.findall(r'pub extern "C" fn (h_\w+)\(', src)
    src += '\npub const TABLE: &[(&str, extern "C" fn())] = &[\n' + ''.join(f'    ("{n}", {n}),\n' for n in names) + '];\n'
    p = os.path.join(out, 'gen.rs')
    if not os.path.exists(p) or open(p).read() != src:
        open(p, 'w').write(src)
    print(len(names))


main()
