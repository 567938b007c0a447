use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};

static mut REFUSED: bool = false;
/// the macro answers with a compile error
pub fn refuse(_e: syn::Error) -> TokenStream {
    unsafe { REFUSED = true }
    TokenStream::new()
}

/// The tokens of a text.  The bytes of identifiers and numbers and the characters of punctuation may be symbolic.
#[derive(Clone)]
enum Tok {
    Id([u8; 20], usize),
    P(char),
    /// an unsuffixed decimal integer of that many digits
    Int([u8; 20], usize),
    /// other literals: a string, a character
    Other(&'static str),
    Paren(Vec<Tok>),
    Brack(Vec<Tok>),
    Brace(Vec<Tok>),
}
use Tok::*;

fn id(s: &str) -> Tok {
    let mut b = [0; 20];
    b[..s.len()].copy_from_slice(s.as_bytes());
    Id(b, s.len())
}
fn int(s: &str) -> Tok {
    let mut b = [0; 20];
    b[..s.len()].copy_from_slice(s.as_bytes());
    Int(b, s.len())
}
/// an arbitrary identifier of n bytes
fn any_id(tag: u32, n: usize) -> Tok {
    let mut b = [0; 20];
    for i in 0..n {
        let c = any(tag + i as u32, 8) as u8;
        let l = c | 0x20;
        assume(((l >= b'a') & (l <= b'z')) | (c == b'_') | (i > 0) & (c >= b'0') & (c <= b'9'));
        b[i] = c;
    }
    Id(b, n)
}
/// an arbitrary number of n digits
fn any_int(tag: u32, n: usize) -> Tok {
    let mut b = [0; 20];
    for i in 0..n {
        let c = any(tag + i as u32, 8) as u8;
        assume((c >= b'0') & (c <= b'9'));
        b[i] = c;
    }
    Int(b, n)
}

const PUNCT: &[u8] = b";,:+-*=.&|/!#%?@^<>~$";

fn text(b: &[u8]) -> &str {
    unsafe { std::str::from_utf8_unchecked(b) }
}
fn tree(t: &Tok) -> TokenTree {
    match t {
        Id(b, n) => Ident::new(text(&b[..*n]), Span::call_site()).into(),
        P(c) => Punct::new(*c, Spacing::Alone).into(),
        Int(b, n) => text(&b[..*n]).parse::<Literal>().unwrap().into(),
        Other(s) => s.parse::<Literal>().unwrap().into(),
        Paren(v) => Group::new(Delimiter::Parenthesis, stream(v)).into(),
        Brack(v) => Group::new(Delimiter::Bracket, stream(v)).into(),
        Brace(v) => Group::new(Delimiter::Brace, stream(v)).into(),
    }
}
fn stream(v: &[Tok]) -> TokenStream {
    v.iter().map(tree).collect()
}

// ---- the syntax, as documented ----------------------------------------------------------------

fn is(t: &Tok, s: &[u8]) -> bool {
    match t {
        Id(b, n) if *n == s.len() => {
            let mut r = true;
            for i in 0..s.len() {
                r &= b[i] == s[i];
            }
            r
        }
        _ => false,
    }
}
fn one_of(t: &Tok, l: &[&[u8]]) -> bool {
    let mut r = false;
    for s in l {
        r |= is(t, s);
    }
    r
}
/// names in any case
fn gpr(t: &Tok) -> bool {
    match t {
        Id(b, n) => {
            let mut l = *b;
            for i in 0..*n {
                l[i] = b[i] | if (b[i] >= b'A') & (b[i] <= b'Z') { 0x20 } else { 0 };
            }
            one_of(&Id(l, *n), &[b"rax", b"rcx", b"rdx", b"rbx", b"rsp", b"rbp", b"rsi", b"rdi", b"r8", b"r9", b"r10", b"r11", b"r12", b"r13",
                b"r14", b"r15", b"cl", b"rip"])
        }
        _ => false,
    }
}
/// xmm and a number up to 15, leading zeros allowed
fn xmm(t: &Tok) -> bool {
    match t {
        Id(b, n) if *n > 3 => {
            let mut r = (b[0] == b'x') & (b[1] == b'm') & (b[2] == b'm');
            let mut v = 0u64;
            for i in 3..*n {
                r &= (b[i] >= b'0') & (b[i] <= b'9');
                v = v * 10 + b[i] as u64 - if b[i] >= b'0' { b'0' as u64 } else { 0 };
            }
            r & (v <= 15)
        }
        _ => false,
    }
}
const KEYWORDS: &[&[u8]] = &[b"_", b"abstract", b"as", b"async", b"await", b"become", b"box", b"break", b"const", b"continue", b"crate", b"do",
    b"dyn", b"else", b"enum", b"extern", b"false", b"final", b"fn", b"for", b"if", b"impl", b"in", b"let", b"loop", b"macro", b"match", b"mod",
    b"move", b"mut", b"override", b"priv", b"pub", b"ref", b"return", b"Self", b"self", b"static", b"struct", b"super", b"trait", b"true", b"try",
    b"type", b"typeof", b"unsafe", b"unsized", b"use", b"virtual", b"where", b"while", b"yield"];
fn plain(t: &Tok) -> bool {
    matches!(t, Id(..)) && !one_of(t, KEYWORDS)
}
fn value(b: &[u8; 20], n: usize) -> u64 {
    let mut v = 0;
    for i in 0..n {
        v = v * 10 + (b[i] & 15) as u64;
    }
    v
}
/// the Rust expressions used here: one identifier or literal, or a sum of them
fn expr(v: &[Tok]) -> bool {
    let atom = |t: &Tok| match t {
        Id(..) => plain(t) | one_of(t, &[b"true", b"false", b"self", b"crate", b"Self", b"super"]),
        Int(..) | Other(_) => true,
        _ => false,
    };
    match v {
        [a] => atom(a),
        [a, P('+'), b] => atom(a) & atom(b),
        _ => false,
    }
}
fn sign(t: &Tok) -> bool {
    matches!(t, P('+') | P('-'))
}
/// a displacement behind its sign
fn disp(v: &[Tok], plus: bool) -> bool {
    match v {
        [Paren(e)] => expr(e),
        [Int(b, n)] => value(b, *n) <= if plus { 0x7fff_ffff } else { 0x7fff_ffff },
        [P('-'), Int(b, n)] => value(b, *n) <= if plus { 0x8000_0000 } else { 0x7fff_ffff },
        // a label is added
        [t] => plus & plain(t),
        _ => false,
    }
}
/// what stands in brackets
fn memory(v: &[Tok]) -> bool {
    let (b, rest) = match v {
        [b, Paren(e), rest @ ..] => (is(b, b"R") & expr(e), rest),
        [b, rest @ ..] => (gpr(b), rest),
        _ => return false,
    };
    b & match rest {
        [] => true,
        [P('-'), d @ ..] => disp(d, false),
        [P('+'), d @ ..] => {
            let (x, rest) = match d {
                [x, Paren(e), rest @ ..] => (is(x, b"R") & expr(e), Some(rest)),
                [x, rest @ ..] => (gpr(x), Some(rest)),
                _ => (false, None),
            };
            // a register here is an index, whatever follows
            let name = d.len() > 0 && matches!(d[0], Id(..));
            let reg = name && gpr(&d[0]) | is(&d[0], b"R");
            (x & rest.map_or(false, index)) | (!reg & disp(d, true))
        }
        _ => false,
    }
}
fn index(v: &[Tok]) -> bool {
    match v {
        [P('*'), Int(b, n), rest @ ..] => {
            let s = value(b, *n);
            ((s == 1) | (s == 2) | (s == 4) | (s == 8)) & index_disp(rest)
        }
        [P('*'), ..] => false,
        _ => index_disp(v),
    }
}
fn index_disp(v: &[Tok]) -> bool {
    match v {
        [] => true,
        [P('+'), d @ ..] => disp(d, true),
        [P('-'), d @ ..] => disp(d, false),
        _ => false,
    }
}
/// may this be an operand of the kind: g named register, r any register, x xmm, m memory, i immediate, p immediate in parentheses,
/// q qword immediate, l label
fn operand(v: &[Tok], kind: u8) -> bool {
    match (kind, v) {
        (b'g', [t]) => gpr(t),
        (b'r', [t]) => gpr(t),
        (b'r', [t, Paren(e)]) => is(t, b"R") & expr(e),
        (b'x', [t]) => xmm(t),
        (b'x', [t, Paren(_)]) => is(t, b"xmm"),
        (b'm', [Brack(e)]) => memory(e),
        (b'i', [Int(..)]) => true,
        (b'i' | b'p', [Paren(_)]) => true,
        (b'q', [t, Int(..) | Paren(_)]) => is(t, b"qword"),
        (b'l', [t]) => plain(t),
        _ => false,
    }
}
/// one instruction without its semicolon
fn instruction(v: &[Tok]) -> bool {
    let (m, rest) = match v {
        [m @ Id(..), rest @ ..] => (m, rest),
        _ => return false,
    };
    let mut r = false;
    // literals of the data directive
    if let [Int(b, n)] = rest {
        r |= is(m, b"dq") & (value(b, *n) < 1 << 63);
    }
    if let [P('-'), Int(b, n)] = rest {
        r |= is(m, b"dq") & (value(b, *n) <= 1 << 63);
    }
    let ops: Vec<&[Tok]> = if rest.is_empty() { vec![] } else { rest.split(|t| matches!(t, P(','))).collect() };
    for (sigs, names) in SYNTAX {
        let mut fits = false;
        for s in sigs.iter().filter(|s| s.len() == ops.len()) {
            let mut ok = true;
            for i in 0..s.len() {
                ok &= operand(ops[i], s[i]);
            }
            fits |= ok;
        }
        r |= fits & one_of(m, names);
    }
    r
}
/// a whole block
fn block(v: &[Tok]) -> bool {
    if v.is_empty() {
        return true;
    }
    if let [l @ Id(..), P(':'), rest @ ..] = v {
        return plain(l) & block(rest);
    }
    match v.iter().position(|t| matches!(t, P(';'))) {
        Some(n) => instruction(&v[..n]) & block(&v[n + 1..]),
        None => false,
    }
}

/// The macro answers with code exactly if the text is of the documented syntax.
#[inline(never)]
fn decide(v: Vec<Tok>) {
    let w = block(&v);
    let mut all: Vec<Tok> = vec![id("m"), P(',')];
    all.extend(v);
    verdict(all, w);
}
/// `:: core :: compile_error ! { .. }`, or the like
#[inline(never)]
fn is_error(r: TokenStream) -> bool {
    let mut e = false;
    for t in r.clone().into_iter().take(10) {
        if let TokenTree::Ident(i) = t {
            e |= i == "compile_error";
        }
    }
    std::mem::forget(r);
    e
}
#[inline(never)]
fn verdict(all: Vec<Tok>, w: bool) {
    proc_macro2::fallback::force();
    let ts = stream(&all);
    unsafe { REFUSED = false }
    panic_if(false, !w);
    let r = mac::monoasm(ts);
    panic_end();
    let a = unsafe { !REFUSED } && !is_error(r);
    check(!a | w, 10);
    check(a | !w, 11);
    observe(a as u64);
}

fn operands(k: u64) -> Vec<Tok> {
    let r = || vec![id("rbx")];
    let c = || vec![id("R"), Paren(vec![id("a")])];
    let m = || vec![Brack(vec![id("rsi"), P('+'), int("8")])];
    let x = || vec![id("xmm3")];
    let i = || vec![Paren(vec![id("v")])];
    let n = || vec![int("5")];
    let l = || vec![id("lab")];
    let q = || vec![id("qword"), int("7")];
    let l: Vec<Vec<Tok>> = match k {
        0 => vec![],
        1 => vec![r()],
        2 => vec![c()],
        3 => vec![m()],
        4 => vec![x()],
        5 => vec![i()],
        6 => vec![n()],
        7 => vec![l()],
        8 => vec![r(), c()],
        9 => vec![r(), m()],
        10 => vec![m(), r()],
        11 => vec![c(), i()],
        12 => vec![m(), n()],
        13 => vec![x(), x()],
        14 => vec![x(), m()],
        15 => vec![m(), x()],
        16 => vec![x(), r()],
        17 => vec![r(), x()],
        18 => vec![m(), m()],
        19 => vec![i(), r()],
        20 => vec![r(), q()],
        21 => vec![m(), q()],
        22 => vec![q(), r()],
        23 => vec![x(), i()],
        24 => vec![x(), x(), i()],
        25 => vec![x(), m(), n()],
        26 => vec![r(), r(), n()],
        27 => vec![r(), l()],
        28 => vec![i(), n()],
        29 => vec![n(), m()],
        30 => vec![r(), r(), r()],
        31 => vec![r(), m(), n()],
        32 => vec![m(), r(), n()],
        33 => vec![x(), x(), x()],
        34 => vec![r(), i(), i()],
        35 => vec![l(), r()],
        36 => vec![l(), l()],
        _ => vec![x(), x(), x(), n()],
    };
    let mut v = vec![];
    for (k, o) in l.into_iter().enumerate() {
        if k > 0 {
            v.push(P(','));
        }
        v.extend(o);
    }
    v
}
/// any name with given operands
fn mnemonic(n: usize, k: u64) {
    let mut v = vec![any_id(10, n)];
    v.extend(operands(k));
    v.push(P(';'));
    decide(v);
}
/// @for n in 1 2 3 4 5 6 7 8 9 10
/// @for k in 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37
#[no_mangle]
pub extern "C" fn h_c23_mn_@n_@k() {
    mnemonic(@n, @k);
}
/// @end
/// @end
/// @for n in 11 12
/// @for k in 0 1 3 7 8 9 11 14
#[no_mangle]
pub extern "C" fn h_c23_mn_@n_@k() {
    mnemonic(@n, @k);
}
/// @end
/// @end
/// @for n in 1 2 3 4 5 6 7 8 9 10 11 12
#[no_mangle]
pub extern "C" fn h_c23_label_@n() {
    decide(vec![any_id(10, @n), P(':')]);
}
/// @end

/// any name as an operand: alone, or before something in parentheses
fn name_as(m: &str, k: u64, n: usize) {
    let mut v = vec![id(m)];
    let x = any_id(10, n);
    let mut o = vec![x];
    match choice(30, 3) {
        0 => {}
        1 => o.push(Paren(vec![id("a")])),
        _ => o.push(int("3")),
    }
    let r = [id("rdx")];
    let g = [id("xmm5")];
    let e = [Brack(vec![id("rdi")])];
    let p = |v: &mut Vec<Tok>, t: &[Tok]| v.extend(t.iter().cloned());
    match k {
        0 => p(&mut v, &o),
        1 => {
            p(&mut v, &o);
            v.push(P(','));
            p(&mut v, &r);
        }
        2 => {
            p(&mut v, &r);
            v.push(P(','));
            p(&mut v, &o);
        }
        3 => {
            p(&mut v, &o);
            v.push(P(','));
            p(&mut v, &g);
        }
        4 => {
            p(&mut v, &g);
            v.push(P(','));
            p(&mut v, &o);
        }
        5 => {
            p(&mut v, &e);
            v.push(P(','));
            p(&mut v, &o);
        }
        6 => {
            p(&mut v, &o);
            v.push(P(','));
            p(&mut v, &e);
        }
        7 => {
            p(&mut v, &g);
            v.push(P(','));
            p(&mut v, &g);
            v.push(P(','));
            p(&mut v, &o);
        }
        _ => {
            // inside brackets, as base or index
            p(&mut v, &r);
            v.push(P(','));
            v.push(Brack(if k == 8 {
                o
            } else {
                let mut w = vec![id("rdi"), P('+')];
                w.extend(o);
                w
            }));
        }
    }
    v.push(P(';'));
    decide(v);
}
/// @for m,k in movq,1 movq,2 movq,3 movq,4 movq,5 movl,1 movl,2 movl,5 addb,1 addb,2 movsxl,1 movsxl,2 xchgq,1 xchgq,2 testb,1 testb,2 shll,1 shll,5 setne,0 cmovgtl,1 cmovgtl,6 negq,0 imul,1 imul,2 divl,0 movsd,3 movsd,4 movsd,5 addsd,3 addsd,4 lea,6 lea,8 lea,9 movq,8 movq,9 cvtsi2sdq,1 cvtsi2sdq,4 cvttsd2siq,3 cvttsd2siq,2 pushq,0 popq,0 call,0 jmp,0 jne,0 ret,0 roundpd,7 dq,0
/// @for n in 1 2 3 4 5 6
#[no_mangle]
pub extern "C" fn h_c23_name_@m_@k_@n() {
    name_as("@m", @k, @n);
}
/// @end
/// @end

/// any token
fn any_tok(tag: u32) -> Tok {
    match choice(tag, 13) {
        0 => any_id(tag + 1, 2),
        1 => any_id(tag + 1, 3),
        2 => id("R"),
        3 => any_int(tag + 1, 1),
        4 => any_int(tag + 1, 2),
        5 => Paren(vec![id("e")]),
        6 => Paren(vec![]),
        7 => Paren(vec![id("e"), id("f")]),
        8 => Brack(vec![id("rax")]),
        9 => Brace(vec![id("e")]),
        10 => Other("'c'"),
        11 => Other("\"s\""),
        _ => P(PUNCT[choice(tag + 9, PUNCT.len() as u64) as usize] as char),
    }
}

/// brackets: a valid beginning, any token, and something behind it
fn brackets(start: usize, m: &str) {
    let d = || Paren(vec![id("d")]);
    let a = || Paren(vec![id("a")]);
    let mut v = match start {
        0 => vec![],
        1 => vec![id("rax")],
        2 => vec![id("rax"), P('+')],
        3 => vec![id("rax"), P('-')],
        4 => vec![id("rax"), P('+'), id("rcx")],
        5 => vec![id("rax"), P('+'), id("rcx"), P('*')],
        6 => vec![id("rax"), P('+'), id("rcx"), P('*'), int("2")],
        7 => vec![id("rax"), P('+'), id("rcx"), P('*'), int("2"), P('+')],
        8 => vec![id("rax"), P('+'), id("rcx"), P('*'), int("2"), P('-')],
        9 => vec![id("R")],
        10 => vec![id("R"), a()],
        11 => vec![id("R"), a(), P('+'), id("R")],
        12 => vec![id("R"), a(), P('+'), id("R"), a()],
        13 => vec![id("rip"), P('+')],
        14 => vec![id("rip"), P('-')],
        15 => vec![id("rip"), P('+'), id("lab")],
        16 => vec![id("rax"), P('+'), P('-')],
        17 => vec![id("rax"), P('-'), P('-')],
        18 => vec![id("rax"), P('-'), d()],
        19 => vec![id("rax"), P('+'), int("8")],
        20 => vec![id("rax"), P('+'), id("rcx"), P('*'), int("2"), P('-'), d()],
        21 => vec![id("rax"), P('+'), id("rcx"), P('-')],
        _ => vec![id("rax"), P('+'), id("rcx"), P('-'), int("4")],
    };
    v.push(any_tok(10));
    match choice(40, 6) {
        0 => {}
        1 => v.extend([P('+'), d()]),
        2 => v.extend([P('*'), int("4")]),
        3 => v.push(any_id(41, 3)),
        4 => v.push(int("4")),
        _ => v.extend([P('-'), id("lab")]),
    }
    let b = Brack(v);
    let mut t = vec![id(m)];
    match m {
        "movsd" => t.extend([id("xmm1"), P(','), b]),
        "jmp" | "negq" => t.push(b),
        _ => t.extend([b, P(','), id("rbx")]),
    }
    t.push(P(';'));
    decide(t);
}
/// @for k in 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22
#[no_mangle]
pub extern "C" fn h_c23_mem_movq_@k() {
    brackets(@k, "movq");
}
/// @thorough
/// @for m in addb movsd negq jmp
#[no_mangle]
pub extern "C" fn h_c23_mem_@m_@k() {
    brackets(@k, "@m");
}
/// @end
/// @end
/// @end

/// numbers of many digits as scale and displacement
fn number(x: Tok) {
    let b = match choice(30, 6) {
        0 => vec![id("rax"), P('+'), id("rcx"), P('*'), x],
        1 => vec![id("rax"), P('+'), x],
        2 => vec![id("rax"), P('-'), x],
        3 => vec![id("rax"), P('+'), P('-'), x],
        4 => vec![id("rax"), P('-'), P('-'), x],
        _ => vec![id("rax"), P('+'), id("rcx"), P('*'), int("2"), P('-'), x],
    };
    decide(vec![id("lea"), id("rbx"), P(','), Brack(b), P(';')]);
}
/// @for n in 1 2 3
#[no_mangle]
pub extern "C" fn h_c23_number_@n() {
    number(any_int(10, @n));
}
/// @end
/// @thorough
#[no_mangle]
pub extern "C" fn h_c23_number_4() {
    number(any_int(10, 4));
}
/// @end
/// the last digit of a long number
/// @for p in 214748364 429496729 99999999999 256 922337203685477580
#[no_mangle]
pub extern "C" fn h_c23_number_around_@p() {
    let mut x = int("@p0");
    if let Int(b, n) = &mut x {
        let c = any(10, 8) as u8;
        assume((c >= b'0') & (c <= b'9'));
        b[*n - 1] = c;
    }
    number(x);
}
/// @end

/// the literal of dq
/// @for p in 922337203685477580 999999999999999999 214748364 429496729
#[no_mangle]
pub extern "C" fn h_c23_dq_@p() {
    let mut x = int("@p0");
    if let Int(b, n) = &mut x {
        let c = any(10, 8) as u8;
        assume((c >= b'0') & (c <= b'9'));
        b[*n - 1] = c;
    }
    decide(if choice(30, 2) == 0 { vec![id("dq"), x, P(';')] } else { vec![id("dq"), P('-'), x, P(';')] });
}
/// @end

/// what stands before the instructions: the generator and a comma
#[no_mangle]
pub extern "C" fn h_c23_head() {
    let t = any_tok(10);
    let g = match &t {
        Paren(v) if v.is_empty() => true,
        Paren(v) => expr(v),
        Brack(_) | Brace(_) => true,
        t => expr(std::slice::from_ref(t)),
    };
    match choice(40, 4) {
        0 => verdict(vec![t, P(','), id("ret"), P(';')], g),
        1 => {
            assume(matches!(t, Id(..) | Int(..) | Other(_) | P(_)));
            // not an operator, which would continue the generator's expression
            let w = matches!(t, P(','));
            verdict(vec![id("m"), t, id("ret"), P(';')], w)
        }
        2 => verdict(vec![t], false),
        _ => verdict(vec![P('&'), id("mut"), id("m"), P(','), t], false),
    }
}
/// @for k in 0 1 2 3 4 5 6
#[no_mangle]
pub extern "C" fn h_c23_heads_@k() {
    match @k {
        0 => verdict(vec![], false),
        1 => verdict(vec![id("m")], false),
        2 => verdict(vec![id("m"), P(',')], true),
        3 => verdict(vec![P(',')], false),
        4 => verdict(vec![P(','), id("ret"), P(';')], false),
        5 => verdict(vec![P('&'), id("mut"), id("m"), P('.'), id("jit"), P(','), id("ret"), P(';')], true),
        _ => verdict(vec![id("m"), P(','), P(','), id("ret"), P(';')], false),
    }
}
/// @end

/// a block with one change: a token replaced, removed or added, or two neighbours exchanged
fn changed(which: u64, at: usize) {
    let m = || Brack(vec![id("rsi"), P('+'), int("8")]);
    let v = || Paren(vec![id("v")]);
    let mut t = match which {
        0 => vec![id("movq"), id("rax"), P(','), m(), P(';'), id("lab"), P(':'), id("ret"), P(';')],
        1 => vec![id("addl"), m(), P(','), v(), P(';'), id("jmp"), id("lab"), P(';')],
        2 => vec![id("lab"), P(':'), id("shlq"), id("R"), v(), P(','), int("3"), P(';')],
        3 => vec![id("roundpd"), id("xmm"), v(), P(','), id("xmm2"), P(','), int("1"), P(';')],
        4 => vec![id("movq"), id("rdi"), P(','), id("qword"), int("1"), P(';'), id("cqo"), P(';')],
        5 => vec![id("call"), v(), P(';'), id("setne"), m(), P(';'), id("dq"), int("7"), P(';')],
        6 => vec![id("cmovneq"), id("rax"), P(','), m(), P(';'), id("jne"), id("lab"), P(';')],
        _ => vec![id("cvtsi2sdq"), id("xmm1"), P(','), id("rax"), P(';'), id("xorps"), id("xmm0"), P(','), m(), P(';')],
    };
    if at >= t.len() {
        decide(t);
        return;
    }
    match choice(30, 4) {
        0 => t[at] = any_tok(10),
        1 => t.insert(at, any_tok(10)),
        2 => {
            t.remove(at);
        }
        _ => {
            let n = t.len();
            t.swap(at, (at + 1) % n);
        }
    }
    decide(t);
}
/// @for k in 0 1 2 3 4 5 6 7
/// @for a in 0 1 2 3 4 5 6 7 8 9 10
#[no_mangle]
pub extern "C" fn h_c23_changed_@k_@a() {
    changed(@k, @a);
}
/// @end
/// @end
