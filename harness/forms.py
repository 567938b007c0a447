"""Instruction forms of the assembler's documented syntax, as data.

Every form gives the text handed to monoasm!, the symbolic operands, where a panic is required or
allowed, and the expectation on the decoded bytes.  Independent of the sources in /repo."""

FITS = {1: 'fits8', 2: 'fits16', 4: 'fits32', 8: 'fits32'}


class Opd:
    """setup: Rust statements; text: assembly text; lo/hi: panic conditions (Rust bool expressions)"""

    def __init__(self, kind, setup, text, chk, lo='false', hi='false', tag=''):
        self.kind, self.setup, self.text, self.chk = kind, setup, text, chk
        self.lo, self.hi, self.tag = lo, hi, tag


def R(n):
    v = f'r{n}'
    return Opd('r', f'let {v} = any({n}, 4);', f'R({v})', lambda o, i: f'is_gpr(&{o}, {v}, {i});', tag='r')


def X(n):
    v = f'x{n}'
    return Opd('x', f'let {v} = any({n}, 4);', f'xmm({v})', lambda o, i: f'is_xmm(&{o}, {v}, {i});', tag='x')


SCALE = {1: 0, 2: 1, 4: 2, 8: 3}


def mem(shape):
    """shape: (index?, scale, displacement syntax)
    displacement: 'e' (expr), 'n' (- expr), '' none, int literal"""
    if shape == 'L':
        return Opd('m', '', '[rip + l]', lambda o, i: f'is_mem(&{o}, 16, 17, 0, want, {i});', tag='ml')
    idx, s, d = shape
    setup = 'let mb = any(20, 5); assume(mb <= 16); '
    base_txt = 'R(mb)'
    if d == 'e':
        setup += 'let md = any(22, 32) as i32; '
        dt, dv = ' + (md)', 'md as i64'
    elif d == 'n':
        setup += 'let md = any(22, 32) as i32; assume(md != i32::MIN); '
        dt, dv = ' - (md)', '-(md as i64)'
    elif d == '':
        dt, dv = '', '0'
    else:
        dt, dv = (f' + {d}' if d >= 0 else f' - {-d}'), str(d)
    if idx:
        setup += 'let mx = any(21, 5); assume(mx <= 16); '
        st = '' if s == 0 else f'*{s}'
        sc = SCALE[s or 1]
        setup += f'let (mlo, mhi) = bad_index(mb, mx, {sc}); '
        text = f'[R(mb) + R(mx){st}{dt}]'
        lo, hi = 'mlo', 'mhi'
        chk = lambda o, i: f'is_mem(&{o}, mb, mx, {sc}, {dv}, {i});'
    else:
        text = f'[R(mb){dt}]'
        lo = hi = 'false'
        chk = lambda o, i: f'is_mem(&{o}, mb, 17, 0, {dv}, {i});'
    tag = 'm' + (f'x{s}' if idx else '') + {'e': 'e', 'n': 'n', '': 'z'}.get(d, f'l{d}'.replace('-', 'm'))
    return Opd('m', setup, text, chk, lo, hi, tag)


M0 = (False, 0, 'e')
M4 = (True, 4, 'e')


def I(w):
    f = FITS[w]
    return Opd('i', 'let v = any(30, 64) as i64;', '(v)',
               lambda o, i: f'is_imm(&{o}, v, {w}, {i});', f'!{f}(v)', f'!{f}(v)', tag='i')


def COUNT(w):
    m = 63 if w == 8 else 31
    return Opd('i', 'let v = any(30, 64) as i64;', '(v)',
               lambda o, i: f'check({o}.kind == K_IMM, {i}); check(({o}.val ^ v) & {m} == 0, {i + 1});',
               '!fits8(v)', '!fits8(v)', tag='i')


CL = Opd('cl', '', 'cl', lambda o, i: f'is_gpr(&{o}, 1, {i});', tag='cl')


def CR(n):
    v = f'r{n}'
    return Opd('cr', f'let {v} = any({n}, 4);', f'R({v})', lambda o, i: f'is_gpr(&{o}, 1, {i});',
               f'{v} != 1', f'{v} != 1', tag='rc')


class Form:
    def __init__(self, name, mn, opds, body, imm=False, ibody=None):
        self.name, self.mn, self.opds, self.body, self.imm, self.ibody = name, mn, opds, body, imm, ibody

    def only(self, what):
        """the same form with the expectation reduced to its memory operand, label or immediate"""
        f = Form(self.name, self.mn, self.opds, self.body, self.imm)
        if what == 'imm':
            o = [o for o in self.opds if o.kind == 'i'][-1]
            f.body = self.ibody or o.chk('d.b', 40)
        else:
            o = [o for o in self.opds if o.kind in 'ml'][0]
            f.body = ('let o = memop(&d); ' + o.chk('o', 10)) if o.kind == 'm' else o.chk('d.a', 10)
        return f

    def text(self):
        return self.mn + (' ' if self.opds else '') + ', '.join(o.text for o in self.opds) + ';'

    def rust(self, hname):
        setup = '\n    '.join(o.setup for o in self.opds if o.setup)
        lo = ' | '.join(f'({o.lo})' for o in self.opds if o.lo != 'false') or 'false'
        hi = ' | '.join(f'({o.hi})' for o in self.opds if o.hi != 'false') or 'false'
        return f'''
#[no_mangle]
pub extern "C" fn {hname}() {{
    {setup}
    let (mut jit, base) = new();
    panic_if({lo}, {hi});
    monoasm!(&mut jit, {self.text()});
    panic_end();
    let d = one(&jit, base);
    {self.body}
}}
'''


    def rust_ctx(self, hname):
        """the same form at the start of a fresh memory and elsewhere, alone and between others"""
        setup = '\n    '.join(o.setup for o in self.opds if o.setup)
        lo = ' | '.join(f'({o.lo})' for o in self.opds if o.lo != 'false') or 'false'
        hi = ' | '.join(f'({o.hi})' for o in self.opds if o.hi != 'false') or 'false'
        return f'''
#[no_mangle]
pub extern "C" fn {hname}() {{
    {setup}
    let (mut first, base) = new();
    panic_if({lo}, {hi});
    monoasm!(&mut first, {self.text()});
    let n = first.get_current() as u64;
    let p = any_pos(50, 64);
    let (mut jit, c) = placed(p);
    let k = choice(60, 2) as usize;
    jit.select_page(k);
    if choice(61, 2) == 0 {{
        monoasm!(&mut jit, {self.text()} ret;);
        panic_end();
        check(jit.get_current() as u64 == p[k] + n + 1, 10);
        same_bytes(c.base[k], p[k], base, 0, n, 11);
        check(rd(at(c.base[k], p[k] + n)) == 0xc3, 12);
    }} else {{
        monoasm!(&mut first, addw [r13 + 8], 300; xchgq rax, r9; cmpb R(7), (-3););
        let m = first.get_current() as u64 - n;
        monoasm!(&mut jit, addw [r13 + 8], 300; xchgq rax, r9; cmpb R(7), (-3); {self.text()} leave; ret;);
        panic_end();
        check(jit.get_current() as u64 == p[k] + m + n + 2, 20);
        same_bytes(c.base[k], p[k], base, n, m, 21);
        same_bytes(c.base[k], p[k] + m, base, 0, n, 22);
        check(rd(at(c.base[k], p[k] + m + n)) == 0xc9, 23);
        check(rd(at(c.base[k], p[k] + m + n + 1)) == 0xc3, 24);
    }}
}}
'''

    def rust_label(self, hname):
        """the same form as a reference to label l: any position of the reference, any page and position
        of the label, bound before or after the reference"""
        setup = '\n    '.join(o.setup for o in self.opds if o.setup)
        lo = ' | '.join(f'({o.lo})' for o in self.opds if o.lo != 'false') or 'false'
        hi = ' | '.join(f'({o.hi})' for o in self.opds if o.hi != 'false') or 'false'
        return f'''
#[no_mangle]
pub extern "C" fn {hname}() {{
    {setup}
    let (mut jit, c, l, r) = ref_start();
    let start = jit.get_current() as u64;
    panic_if({lo}, {hi});
    monoasm!(&mut jit, {self.text()});
    panic_end();
    let end = jit.get_current() as u64;
    let (d, want) = ref_end(&mut jit, &c, l, &r, start, end);
    {self.body}
}}
'''


def two(name, mn, op, w, a, b, extra='', sym=False, imm=False):
    """two-operand form; sym: the operation does not depend on operand order"""
    nm = f'{name}_{a.tag}_{b.tag}'
    if sym and a.kind == 'r' and b.kind == 'r':
        ra, rb = a.text[2:-1], b.text[2:-1]
        body = (f'is_op(&d, {op}, {w}); check(d.a.kind == K_GPR && d.b.kind == K_GPR, 10); '
                f'let (p, q) = (d.a.reg as u64, d.b.reg as u64); '
                f'check(((p == {ra}) & (q == {rb})) | ((p == {rb}) & (q == {ra})), 11);')
    elif sym and b.kind == 'm':
        # register, memory: the decoder puts the r/m operand first
        body = f'is_op(&d, {op}, {w}); {a.chk("d.b", 10)} {b.chk("d.a", 40)}'
    else:
        body = f'is_op(&d, {op}, {w}); {a.chk("d.a", 10)} {b.chk("d.b", 40)}'
    return Form(nm, mn, [a, b], body + extra, imm=imm)


def one_op(name, mn, op, w, a, extra=''):
    return Form(f'{name}_{a.tag}', mn, [a], f'is_op(&d, {op}, {w}); {a.chk("d.a", 10)} check(d.b.kind == K_NONE, 40);' + extra)


SUF = {8: 'q', 4: 'l', 2: 'w', 1: 'b'}
ALU = ['ADD', 'OR', 'ADC', 'SBB', 'AND', 'SUB', 'XOR', 'CMP']


def mov_forms(shapes):
    fs = []
    for w in (8, 4, 2, 1):
        mn = 'mov' + SUF[w]
        fs.append(two(mn, mn, 'MOV', w, R(1), R(2)))
        if w == 8:
            o = I(8)
            o.lo = o.hi = 'false'
            fs.append(Form('movq_r_i', mn, [R(1), o], 'is_movimm64(&d, r1, v);', imm=True, ibody='is_imm64(&d, v);'))
            o = I(8)
            o.lo = o.hi = 'false'
            o.text = 'qword (v)'
            fs.append(Form('movq_r_qword', mn, [R(1), o], 'is_movimm64(&d, r1, v);', imm=True, ibody='is_imm64(&d, v);'))
        else:
            fs.append(two(mn, mn, 'MOV', w, R(1), I(w), imm=True))
        for s in shapes:
            fs.append(two(mn, mn, 'MOV', w, R(1), mem(s)))
            fs.append(two(mn, mn, 'MOV', w, mem(s), R(1)))
            fs.append(two(mn, mn, 'MOV', w, mem(s), I(w), imm=True))
    for mn, op, c in (('movsxl', 'MOVSX', 4), ('movsxw', 'MOVSX', 2), ('movsxb', 'MOVSX', 1),
                      ('movzxw', 'MOVZX', 2), ('movzxb', 'MOVZX', 1)):
        for b in [R(2)] + [mem(s) for s in shapes]:
            # zero extension to 32 bits also clears the upper half
            wchk = 'd.w == 8' if op == 'MOVSX' else '(d.w == 8) | (d.w == 4)'
            body = f'check(d.op == {op}, 4); check({wchk}, 5); check(d.c == {c}, 6); is_gpr(&d.a, r1, 10); {b.chk("d.b", 40)}'
            fs.append(Form(f'{mn}_r_{b.tag}', mn, [R(1), b], body))
    # xchg rax, rax may be a nop
    fs.append(Form('xchgq_r_r', 'xchgq', [R(1), R(2)],
                   'if d.op == NOP { check(r1 == r2, 7); } else { is_op(&d, XCHG, 8); '
                   'check(d.a.kind == K_GPR && d.b.kind == K_GPR, 10); let (p, q) = (d.a.reg as u64, d.b.reg as u64); '
                   'check(((p == r1) & (q == r2)) | ((p == r2) & (q == r1)), 11); }'))
    for s in shapes:
        fs.append(two('xchgq', 'xchgq', 'XCHG', 8, mem(s), R(1)))
        fs.append(two('xchgq', 'xchgq', 'XCHG', 8, R(1), mem(s), sym=True))
        fs.append(two('lea', 'lea', 'LEA', 8, R(1), mem(s)))
    for mn, op in (('pushq', 'PUSH'), ('popq', 'POP')):
        fs.append(one_op(mn, mn, op, 8, R(1)))
        for s in shapes:
            fs.append(one_op(mn, mn, op, 8, mem(s)))
    fs.append(two('movq', 'movq', 'MOVQX', 8, X(3), R(1)))
    fs.append(two('movq', 'movq', 'MOVQX', 8, R(1), X(3)))
    fs.append(two('movq', 'movq', 'MOVQX', 8, X(3), X(4)))
    for s in shapes:
        fs.append(two('movq', 'movq', 'MOVQX', 8, X(3), mem(s)))
        fs.append(two('movq', 'movq', 'MOVQX', 8, mem(s), X(3)))
    return fs


def alu_forms(shapes):
    fs = []
    for op in ALU:
        for w in (8, 4, 2, 1):
            mn = op.lower() + SUF[w]
            fs.append(two(mn, mn, op, w, R(1), R(2)))
            fs.append(two(mn, mn, op, w, R(1), I(w), imm=True))
            for s in shapes:
                fs.append(two(mn, mn, op, w, R(1), mem(s)))
                fs.append(two(mn, mn, op, w, mem(s), R(1)))
                fs.append(two(mn, mn, op, w, mem(s), I(w), imm=True))
    for w in (8, 1):
        mn = 'test' + SUF[w]
        fs.append(two(mn, mn, 'TEST', w, R(1), R(2), sym=True))
        fs.append(two(mn, mn, 'TEST', w, R(1), I(w), imm=True))
        for s in shapes:
            fs.append(two(mn, mn, 'TEST', w, mem(s), R(1)))
            fs.append(two(mn, mn, 'TEST', w, mem(s), I(w), imm=True))
    for mn, op, w in (('negq', 'NEG', 8), ('idiv', 'IDIV', 8), ('idivq', 'IDIV', 8), ('idivl', 'IDIV', 4),
                      ('div', 'DIV', 8), ('divq', 'DIV', 8), ('divl', 'DIV', 4)):
        for a in [R(1)] + [mem(s) for s in shapes]:
            fs.append(one_op(mn, mn, op, w, a))
    for b in [R(2)] + [mem(s) for s in shapes]:
        fs.append(two('imul', 'imul', 'IMUL', 8, R(1), b))
    fs.append(Form('cqo', 'cqo', [], 'is_op(&d, CQO, 8);'))
    fs.append(Form('cdq', 'cdq', [], 'is_op(&d, CQO, 4);'))
    return fs


def shift_forms(shapes):
    fs = []
    for mn0, op in (('shl', 'SHL'), ('sal', 'SHL'), ('shr', 'SHR'), ('sar', 'SAR'), ('rol', 'ROL'), ('ror', 'ROR')):
        for w in (8, 4):
            mn = mn0 + SUF[w]
            for a in [R(1)] + [mem(s) for s in shapes]:
                fs.append(two(mn, mn, op, w, a, COUNT(w), imm=True))
                fs.append(two(mn, mn, op, w, a, CL))
                fs.append(two(mn, mn, op, w, a, CR(2)))
    for mn0 in ('lzcnt', 'tzcnt', 'popcnt'):
        for w in (8, 4):
            mn = mn0 + SUF[w]
            for b in [R(2)] + [mem(s) for s in shapes]:
                fs.append(two(mn, mn, mn0.upper(), w, R(1), b))
    return fs


CC = {}
for i, names in enumerate(['o', 'no', 'b c nae', 'ae nc', 'eq e z', 'ne nz', 'be na', 'a nbe', 's', 'ns', 'p pe', 'np po',
                           'lt l nge', 'ge nl', 'le ng', 'gt g nle']):
    for n in names.split():
        CC[n] = i
# nb is not in the accepted list
JCC = [c for c in CC if c not in ('l', 'g')]


LREF = Opd('l', '', 'l', lambda o, i: f'check({o}.kind == K_REL, {i}); check({o}.val == want, {i + 1});', tag='l')


def jcc_forms():
    return [Form('j' + c, 'j' + c, [LREF], f'check(d.op == JCC, 4); check(d.cc == {CC[c]}, 7); ' + LREF.chk('d.a', 10)) for c in JCC]


def branch_forms():
    return [Form(mn + '_label', mn, [LREF], f'check(d.op == {mn.upper()}, 4); ' + LREF.chk('d.a', 10)) for mn in ('jmp', 'call')]


def cond_forms(shapes):
    fs = []
    for c, n in CC.items():
        for a in [R(1)] + [mem(s) for s in shapes]:
            fs.append(one_op('set' + c, 'set' + c, 'SETCC', 1, a, f' check(d.cc == {n}, 7);'))
        for w in (8, 4, 2):
            mn = 'cmov' + c + SUF[w]
            for b in [R(2)] + [mem(s) for s in shapes]:
                fs.append(two(mn, mn, 'CMOV', w, R(1), b, f' check(d.cc == {n}, 7);'))
    return fs


def sse_forms(shapes):
    fs = []
    for mn, w in (('addsd', 8), ('subsd', 8), ('mulsd', 8), ('divsd', 8), ('minsd', 8), ('maxsd', 8), ('xorps', 16),
                  ('ucomisd', 8), ('andpd', 16), ('xorpd', 16), ('sqrtpd', 16), ('sqrtsd', 8), ('movsd', 8)):
        for b in [X(4)] + [mem(s) for s in shapes]:
            fs.append(two(mn, mn, mn.upper(), w, X(3), b))
    for s in shapes:
        fs.append(two('movsd', 'movsd', 'MOVSD', 8, mem(s), X(3)))
    imm8 = Opd('i', 'let v = any(30, 8) as u8;', '(v)', None, tag='i')
    for b in [X(4)] + [mem(s) for s in shapes]:
        body = f'is_op(&d, ROUNDPD, 16); is_xmm(&d.a, x3, 10); {b.chk("d.b", 40)} check(d.c == v as i64, 60);'
        fs.append(Form(f'roundpd_x_{b.tag}_i', 'roundpd', [X(3), b, imm8], body))
    for b in [R(1)] + [mem(s) for s in shapes]:
        fs.append(two('cvtsi2sdq', 'cvtsi2sdq', 'CVTSI2SD', 8, X(3), b))
    for b in [X(3)] + [mem(s) for s in shapes]:
        fs.append(two('cvttsd2siq', 'cvttsd2siq', 'CVTTSD2SI', 8, R(1), b))
    return fs


GPRS = ['rax', 'rcx', 'rdx', 'rbx', 'rsp', 'rbp', 'rsi', 'rdi'] + [f'r{i}' for i in range(8, 16)]


def named(n):
    return Opd('g', '', GPRS[n], lambda o, i: f'is_gpr(&{o}, {n}, {i});', tag=GPRS[n])


def ctl_forms(shapes):
    fs = []
    for mn in ('call', 'jmp'):
        for n in range(16):
            fs.append(one_op(mn, mn, mn.upper(), 8, named(n)))
        for s in shapes:
            fs.append(one_op(mn, mn, mn.upper(), 8, mem(s)))
    v = Opd('i', 'let v = any(30, 64) as i64;', '(v)', None, '!fits32(v)', '!fits32(v)', tag='i')
    fs.append(Form('call_disp', 'call', [v], 'check(d.op == CALL, 4); check(d.a.kind == K_REL, 10); check(d.a.val == v, 11);'))
    for mn in ('ret', 'leave', 'syscall', 'int3'):
        fs.append(Form(mn, mn, [], f'check(d.op == {mn.upper()}, 4);'))
    return fs
