//! Reference decoder for the x86-64 subset the assembler covers.  Written from the instruction set
//! manual, independent of the code under test.  Everything that is not recognised decodes to BAD.
//!
//! The decoder is compiled together with the harness and executed symbolically with it, so it keeps
//! register numbers, displacements and immediates as arithmetic on the bytes and branches only on
//! what selects the instruction format.

pub const BAD: u16 = 0;
pub const ADD: u16 = 1; // ADD..CMP in /digit order
pub const OR: u16 = 2;
pub const ADC: u16 = 3;
pub const SBB: u16 = 4;
pub const AND: u16 = 5;
pub const SUB: u16 = 6;
pub const XOR: u16 = 7;
pub const CMP: u16 = 8;
pub const MOV: u16 = 9;
pub const MOVSX: u16 = 10; // w = destination width, c = source width
pub const MOVZX: u16 = 11;
pub const XCHG: u16 = 12;
pub const LEA: u16 = 13;
pub const PUSH: u16 = 14;
pub const POP: u16 = 15;
pub const MOVQX: u16 = 16; // 64-bit move with an xmm register on one side
pub const TEST: u16 = 17;
pub const NEG: u16 = 18;
pub const IMUL: u16 = 19;
pub const DIV: u16 = 20;
pub const IDIV: u16 = 21;
pub const CQO: u16 = 22; // w = 4: cdq, 8: cqo
pub const ROL: u16 = 24; // + digit
pub const ROR: u16 = 25;
pub const SHL: u16 = 28;
pub const SHR: u16 = 29;
pub const SAR: u16 = 31;
pub const LZCNT: u16 = 32;
pub const TZCNT: u16 = 33;
pub const POPCNT: u16 = 34;
pub const JCC: u16 = 35; // cc
pub const SETCC: u16 = 36;
pub const CMOV: u16 = 37;
pub const MOVSD: u16 = 38;
pub const ADDSD: u16 = 39;
pub const SUBSD: u16 = 40;
pub const MULSD: u16 = 41;
pub const DIVSD: u16 = 42;
pub const MINSD: u16 = 43;
pub const MAXSD: u16 = 44;
pub const XORPS: u16 = 45;
pub const XORPD: u16 = 46;
pub const ANDPD: u16 = 47;
pub const UCOMISD: u16 = 48;
pub const ROUNDPD: u16 = 49;
pub const SQRTPD: u16 = 50;
pub const SQRTSD: u16 = 51;
pub const CVTSI2SD: u16 = 52;
pub const CVTTSD2SI: u16 = 53;
pub const CALL: u16 = 54;
pub const JMP: u16 = 55;
pub const RET: u16 = 56;
pub const LEAVE: u16 = 57;
pub const SYSCALL: u16 = 58;
pub const INT3: u16 = 59;
pub const NOP: u16 = 60;

pub const K_NONE: u8 = 0;
pub const K_GPR: u8 = 1;
pub const K_XMM: u8 = 2;
pub const K_MEM: u8 = 3;
pub const K_IMM: u8 = 4;
pub const K_REL: u8 = 5;

pub const NOREG: u8 = 17;
pub const RIP: u8 = 16;

#[derive(Clone, Copy)]
pub struct Opnd {
    pub kind: u8,
    /// register number; 20..=23 are ah, ch, dh, bh
    pub reg: u8,
    pub base: u8,
    pub index: u8,
    pub scale: u8,
    pub val: i64,
}

#[derive(Clone, Copy)]
pub struct Ins {
    pub op: u16,
    pub w: u8,
    pub cc: u8,
    pub c: i64,
    pub a: Opnd,
    pub b: Opnd,
    pub len: usize,
}

pub const NONE: Opnd = Opnd { kind: K_NONE, reg: 0, base: NOREG, index: NOREG, scale: 0, val: 0 };

pub fn gpr(r: u8) -> Opnd {
    Opnd { kind: K_GPR, reg: r, ..NONE }
}
pub fn xmm(r: u8) -> Opnd {
    Opnd { kind: K_XMM, reg: r, ..NONE }
}
pub fn imm(v: i64) -> Opnd {
    Opnd { kind: K_IMM, val: v, ..NONE }
}
pub fn rel(v: i64) -> Opnd {
    Opnd { kind: K_REL, val: v, ..NONE }
}

struct S<'a> {
    b: &'a [u8; 24],
    n: usize,
    i: usize,
    bad: bool,
    rex: u8,
    has_rex: bool,
}

impl<'a> S<'a> {
    #[inline(always)]
    fn u8(&mut self) -> u8 {
        if self.i < self.n {
            let v = self.b[self.i];
            self.i += 1;
            v
        } else {
            self.bad = true;
            0
        }
    }
    fn i8(&mut self) -> i64 {
        self.u8() as i8 as i64
    }
    fn i16(&mut self) -> i64 {
        let a = self.u8() as u16;
        let b = self.u8() as u16;
        (a | b << 8) as i16 as i64
    }
    fn i32(&mut self) -> i64 {
        let a = self.u8() as u32;
        let b = self.u8() as u32;
        let c = self.u8() as u32;
        let d = self.u8() as u32;
        (a | b << 8 | c << 16 | d << 24) as i32 as i64
    }
    fn i64(&mut self) -> i64 {
        let lo = self.i32() as u32 as u64;
        let hi = self.i32() as u32 as u64;
        (lo | hi << 32) as i64
    }
    fn imm(&mut self, w: u8) -> i64 {
        match w {
            1 => self.i8(),
            2 => self.i16(),
            _ => self.i32(),
        }
    }
    fn breg(&self, r: u8, w: u8) -> u8 {
        if w == 1 && !self.has_rex {
            r + 16 * ((r & 4) >> 2)
        } else {
            r
        }
    }
    /// (reg field extended by REX.R, digit, r/m operand as general register or memory)
    fn modrm(&mut self) -> (u8, u8, Opnd) {
        let m = self.u8();
        let digit = (m >> 3) & 7;
        let reg = digit | (self.rex & 4) << 1;
        let rmlow = m & 7;
        let rb = (self.rex & 1) << 3;
        if m >> 6 == 3 {
            return (reg, digit, gpr(rmlow | rb));
        }
        let md = m >> 6;
        let mut o = Opnd { kind: K_MEM, ..NONE };
        if rmlow == 4 {
            let s = self.u8();
            o.scale = s >> 6;
            let x = (s >> 3) & 7 | (self.rex & 2) << 2;
            if x == 4 {
                o.index = NOREG;
                o.scale = 0;
            } else {
                o.index = x;
            }
            if s & 7 == 5 && md == 0 {
                o.base = NOREG;
                o.val = self.i32();
                return (reg, digit, o);
            }
            o.base = s & 7 | rb;
        } else if rmlow == 5 && md == 0 {
            o.base = RIP;
            o.val = self.i32();
            return (reg, digit, o);
        } else {
            o.base = rmlow | rb;
        }
        if md == 1 {
            o.val = self.i8();
        } else if md == 2 {
            o.val = self.i32();
        }
        (reg, digit, o)
    }
    fn rm(&self, o: Opnd, w: u8) -> Opnd {
        if o.kind == K_GPR {
            gpr(self.breg(o.reg, w))
        } else {
            o
        }
    }
    fn rmx(&self, o: Opnd) -> Opnd {
        if o.kind == K_GPR {
            xmm(o.reg)
        } else {
            o
        }
    }
}

pub fn decode(b: &[u8; 24], n: usize) -> Ins {
    let mut s = S { b, n, i: 0, bad: false, rex: 0, has_rex: false };
    let mut r = Ins { op: BAD, w: 0, cc: 0, c: 0, a: NONE, b: NONE, len: 0 };
    decode1(&mut s, &mut r);
    if s.bad {
        r.op = BAD;
    }
    r.len = s.i;
    r
}

fn decode1(s: &mut S, r: &mut Ins) {
    let mut p66 = false;
    let mut rep = 0u8;
    let mut op = s.u8();
    let mut k = 0;
    while op == 0x66 || op == 0xf2 || op == 0xf3 {
        if op == 0x66 {
            p66 = true;
        } else {
            rep = op;
        }
        op = s.u8();
        k += 1;
        if k > 3 {
            return;
        }
    }
    if op & 0xf0 == 0x40 {
        s.rex = op & 15;
        s.has_rex = true;
        op = s.u8();
    }
    let rexw = s.rex & 8 != 0;
    let w: u8 = if rexw {
        8
    } else if p66 {
        2
    } else {
        4
    };
    let rb = (s.rex & 1) << 3;
    if op == 0x0f {
        return decode0f(s, r, p66, rep, rexw, w);
    }
    if rep != 0 {
        return; // no repeated string instruction is in the subset
    }
    if op & 0xf8 == 0x50 || op & 0xf8 == 0x58 {
        if p66 {
            return;
        }
        r.op = if op & 8 == 0 { PUSH } else { POP };
        r.w = 8;
        r.a = gpr(op & 7 | rb);
        return;
    }
    if op & 0xf8 == 0x90 {
        if op == 0x90 && s.rex & 1 == 0 {
            if p66 {
                return;
            }
            r.op = NOP;
            return;
        }
        r.op = XCHG;
        r.w = w;
        r.a = gpr(op & 7 | rb);
        r.b = gpr(0);
        return;
    }
    if op & 0xf8 == 0xb0 {
        r.op = MOV;
        r.w = 1;
        r.a = gpr(s.breg(op & 7 | rb, 1));
        r.b = imm(s.i8());
        return;
    }
    if op & 0xf8 == 0xb8 {
        r.op = MOV;
        r.w = w;
        r.a = gpr(op & 7 | rb);
        r.b = imm(match w {
            8 => s.i64(),
            2 => s.i16(),
            _ => s.i32(),
        });
        return;
    }
    if op < 0x40 && op & 7 < 6 {
        r.op = ADD + (op >> 3) as u16;
        let bw = if op & 1 == 0 { 1 } else { w };
        r.w = bw;
        match op & 7 {
            0 | 1 => {
                let (g, _, m) = s.modrm();
                r.a = s.rm(m, bw);
                r.b = gpr(s.breg(g, bw));
            }
            2 | 3 => {
                let (g, _, m) = s.modrm();
                r.a = gpr(s.breg(g, bw));
                r.b = s.rm(m, bw);
            }
            _ => {
                r.a = gpr(0);
                r.b = imm(s.imm(bw));
            }
        }
        return;
    }
    match op {
        0x63 => {
            let (g, _, m) = s.modrm();
            r.op = MOVSX;
            r.w = w;
            r.c = 4;
            r.a = gpr(g);
            r.b = m;
        }
        0x70..=0x7f if !p66 => {
            r.op = JCC;
            r.cc = op & 15;
            r.a = rel(s.i8());
        }
        0x80 | 0x81 | 0x83 => {
            let bw = if op == 0x80 { 1 } else { w };
            let (_, d, m) = s.modrm();
            r.op = ADD + d as u16;
            r.w = bw;
            r.a = s.rm(m, bw);
            r.b = imm(if op == 0x81 { s.imm(bw) } else { s.i8() });
        }
        0x84 | 0x85 | 0x86 | 0x87 | 0x88 | 0x89 => {
            let bw = if op & 1 == 0 { 1 } else { w };
            let (g, _, m) = s.modrm();
            r.op = if op < 0x86 {
                TEST
            } else if op < 0x88 {
                XCHG
            } else {
                MOV
            };
            r.w = bw;
            r.a = s.rm(m, bw);
            r.b = gpr(s.breg(g, bw));
        }
        0x8a | 0x8b => {
            let bw = if op & 1 == 0 { 1 } else { w };
            let (g, _, m) = s.modrm();
            r.op = MOV;
            r.w = bw;
            r.a = gpr(s.breg(g, bw));
            r.b = s.rm(m, bw);
        }
        0x8d => {
            let (g, _, m) = s.modrm();
            if m.kind == K_MEM {
                r.op = LEA;
            }
            r.w = w;
            r.a = gpr(g);
            r.b = m;
        }
        0x8f => {
            let (_, d, m) = s.modrm();
            if d == 0 && !p66 {
                r.op = POP;
            }
            r.w = 8;
            r.a = m;
        }
        0x99 => {
            r.op = CQO;
            r.w = w;
        }
        0xa8 | 0xa9 => {
            let bw = if op == 0xa8 { 1 } else { w };
            r.op = TEST;
            r.w = bw;
            r.a = gpr(0);
            r.b = imm(s.imm(bw));
        }
        0xc0 | 0xc1 | 0xd0 | 0xd1 | 0xd2 | 0xd3 => {
            let bw = if op & 1 == 0 { 1 } else { w };
            let (_, d, m) = s.modrm();
            if d != 2 && d != 3 && d != 6 {
                r.op = ROL + d as u16;
            }
            r.w = bw;
            r.a = s.rm(m, bw);
            r.b = if op < 0xd0 {
                imm(s.i8())
            } else if op < 0xd2 {
                imm(1)
            } else {
                gpr(1)
            };
        }
        0xc3 if !p66 => r.op = RET,
        0xc6 | 0xc7 => {
            let bw = if op == 0xc6 { 1 } else { w };
            let (_, d, m) = s.modrm();
            if d == 0 {
                r.op = MOV;
            }
            r.w = bw;
            r.a = s.rm(m, bw);
            r.b = imm(s.imm(bw));
        }
        0xc9 if !p66 => r.op = LEAVE,
        0xcc => r.op = INT3,
        0xe8 | 0xe9 => {
            if p66 {
                return;
            }
            r.op = if op == 0xe8 { CALL } else { JMP };
            r.a = rel(s.i32());
        }
        0xeb if !p66 => {
            r.op = JMP;
            r.a = rel(s.i8());
        }
        0xf6 | 0xf7 => {
            let bw = if op == 0xf6 { 1 } else { w };
            let (_, d, m) = s.modrm();
            r.w = bw;
            r.a = s.rm(m, bw);
            match d {
                0 => {
                    r.op = TEST;
                    r.b = imm(s.imm(bw));
                }
                3 => r.op = NEG,
                6 => r.op = DIV,
                7 => r.op = IDIV,
                _ => {}
            }
        }
        0xff => {
            let (_, d, m) = s.modrm();
            if p66 {
                return;
            }
            r.w = 8;
            r.a = m;
            match d {
                2 => r.op = CALL,
                4 => r.op = JMP,
                6 => r.op = PUSH,
                _ => {}
            }
        }
        _ => {}
    }
}

fn decode0f(s: &mut S, r: &mut Ins, p66: bool, rep: u8, rexw: bool, w: u8) {
    let op = s.u8();
    if op & 0xf0 == 0x40 {
        let (g, _, m) = s.modrm();
        r.op = CMOV;
        r.cc = op & 15;
        r.w = w;
        r.a = gpr(g);
        r.b = m;
        if rep != 0 {
            r.op = BAD;
        }
        return;
    }
    if op & 0xf0 == 0x80 {
        r.op = JCC;
        r.cc = op & 15;
        r.a = rel(s.i32());
        if p66 || rep != 0 {
            r.op = BAD;
        }
        return;
    }
    if op & 0xf0 == 0x90 {
        let (_, _, m) = s.modrm();
        r.op = SETCC;
        r.cc = op & 15;
        r.w = 1;
        r.a = s.rm(m, 1);
        if rep != 0 {
            r.op = BAD;
        }
        return;
    }
    // which mandatory prefix selects the SSE opcode
    let pp: u8 = if rep == 0xf2 {
        2
    } else if rep == 0xf3 {
        3
    } else if p66 {
        1
    } else {
        0
    };
    match op {
        0x05 => {
            if pp == 0 {
                r.op = SYSCALL;
            }
        }
        0xaf => {
            let (g, _, m) = s.modrm();
            if rep == 0 {
                r.op = IMUL;
            }
            r.w = w;
            r.a = gpr(g);
            r.b = m;
        }
        0xb6 | 0xb7 | 0xbe | 0xbf => {
            let sw: u8 = if op & 1 == 0 { 1 } else { 2 };
            let (g, _, m) = s.modrm();
            if rep == 0 {
                r.op = if op < 0xb8 { MOVZX } else { MOVSX };
            }
            r.w = w;
            r.c = sw as i64;
            r.a = gpr(g);
            r.b = s.rm(m, sw);
        }
        0xb8 | 0xbc | 0xbd => {
            let (g, _, m) = s.modrm();
            if rep == 0xf3 {
                r.op = match op {
                    0xb8 => POPCNT,
                    0xbc => TZCNT,
                    _ => LZCNT,
                };
            }
            r.w = w;
            r.a = gpr(g);
            r.b = m;
        }
        0x10 | 0x11 => {
            let (g, _, m) = s.modrm();
            if pp == 2 && !p66 {
                r.op = MOVSD;
            }
            r.w = 8;
            if op == 0x10 {
                r.a = xmm(g);
                r.b = s.rmx(m);
            } else {
                r.a = s.rmx(m);
                r.b = xmm(g);
            }
        }
        0x2a => {
            let (g, _, m) = s.modrm();
            if pp == 2 && !p66 {
                r.op = CVTSI2SD;
            }
            r.w = if rexw { 8 } else { 4 };
            r.a = xmm(g);
            r.b = m;
        }
        0x2c => {
            let (g, _, m) = s.modrm();
            if pp == 2 && !p66 {
                r.op = CVTTSD2SI;
            }
            r.w = if rexw { 8 } else { 4 };
            r.a = gpr(g);
            r.b = s.rmx(m);
        }
        0x2e => {
            let (g, _, m) = s.modrm();
            if pp == 1 {
                r.op = UCOMISD;
            }
            r.w = 8;
            r.a = xmm(g);
            r.b = s.rmx(m);
        }
        0x3a => {
            let op3 = s.u8();
            if op3 != 0x09 || pp != 1 {
                return;
            }
            let (g, _, m) = s.modrm();
            r.op = ROUNDPD;
            r.w = 16;
            r.a = xmm(g);
            r.b = s.rmx(m);
            r.c = s.u8() as i64;
        }
        0x51 | 0x54 | 0x57 | 0x58 | 0x59 | 0x5c | 0x5d | 0x5e | 0x5f => {
            let (g, _, m) = s.modrm();
            let both = p66 && rep != 0;
            r.op = match (op, pp) {
                (0x51, 1) => SQRTPD,
                (0x51, 2) => SQRTSD,
                (0x54, 1) => ANDPD,
                (0x57, 0) => XORPS,
                (0x57, 1) => XORPD,
                (0x58, 2) => ADDSD,
                (0x59, 2) => MULSD,
                (0x5c, 2) => SUBSD,
                (0x5d, 2) => MINSD,
                (0x5e, 2) => DIVSD,
                (0x5f, 2) => MAXSD,
                _ => BAD,
            };
            if both {
                r.op = BAD;
            }
            r.w = if pp == 2 { 8 } else { 16 };
            r.a = xmm(g);
            r.b = s.rmx(m);
        }
        0x6e => {
            // movq xmm, r/m64
            let (g, _, m) = s.modrm();
            if pp == 1 && rexw {
                r.op = MOVQX;
            }
            r.w = 8;
            r.a = xmm(g);
            r.b = m;
        }
        0x7e => {
            let (g, _, m) = s.modrm();
            r.w = 8;
            if pp == 3 && !p66 {
                // movq xmm, xmm/m64
                r.op = MOVQX;
                r.a = xmm(g);
                r.b = s.rmx(m);
            } else if pp == 1 && rexw {
                // movq r/m64, xmm
                r.op = MOVQX;
                r.a = m;
                r.b = xmm(g);
            }
        }
        0xd6 => {
            let (g, _, m) = s.modrm();
            if pp == 1 {
                r.op = MOVQX;
            }
            r.w = 8;
            r.a = s.rmx(m);
            r.b = xmm(g);
        }
        _ => {}
    }
}
