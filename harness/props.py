"""What each check covers: bounds, what lies outside, and what is assumed (copied into the evidence)."""

COMMON_ASSUMPTIONS = [
    'The LLVM IR of the nightly compiler (opt-level 1, fat LTO) has the meaning the executor gives it; on every run a sample of the explored paths is replayed natively and must agree.',
    'Terms are simplified before they reach the SMT solver; the simplifier is validated against the solver by "symx selftest".',
    'The allocator returns a region aligned as requested, anywhere in the lower half of the address space, with arbitrary initial contents; allocation does not fail (except in C28).',
    'mprotect, mmap and sysconf behave as documented and succeed (except in C28).',
    'The reference decoder (harness/src/dec.rs) decodes as the processor does; tools/decoder_check.py compares it with objdump.',
]
PROPS = {}


def P(pid, bounds, outside='', assumptions=(), **kw):
    PROPS[pid] = dict(bounds=bounds, outside=outside, assumptions=list(assumptions), **kw)


REGS = 'all register numbers 0..15 (0..16 for base and index, 16 being rip), all 2^32 displacements, all 2^64 immediates; '
SHAPES = ('memory operands [base], [base + disp], [base - disp], [base + index*s], [base + index*s + disp], [base + index*s - disp] '
          '(s: none, 1, 2, 4, 8; disp: a symbolic expression or one of the literals 1, -129, 127)')
FORM_OUT = ('register numbers above 16 (C27); displacement expressions whose value is outside i32 or whose negation overflows; operand sizes and '
            'mnemonics the assembler does not offer; label operands (C09)')
P('C01', 'one instruction per path from a fresh memory; ' + REGS + 'quick: one or more mnemonics for every way an instruction reaches the encoder, '
  'with 39 addressing shapes (expression, negated expression, absent or boundary literals as displacement; all scales), and with a label and any base or index; thorough: every form that takes a memory operand, with 65 shapes', FORM_OUT)
for pid, what in (('C02', 'mov, movsx, movzx, xchg, lea, push, pop and xmm/general movq forms'), ('C03', 'add, or, adc, sbb, and, sub, xor, cmp, test, neg, imul, mul/div and sign-extension forms'),
                  ('C04', 'shift, rotate and bit-count forms'), ('C05', 'setcc, cmovcc and jcc forms with every condition name'), ('C06', 'SSE forms'),
                  ('C07', 'call, jmp, ret and the other control forms')):
    P(pid, f'one instruction per path from a fresh memory; all the {what} of harness/forms.py; ' + REGS + SHAPES +
      ('; jumps to labels with reference and label at any position of any page, bound before or after' if pid in ('C05', 'C07') else ''), FORM_OUT)
P('C08', 'one instruction per path from a fresh memory; every form that takes an immediate, given by an expression of type i64 (all values) and by 15 literals at and around the limits of 8, 16 and 32 bits; ' + REGS + SHAPES, FORM_OUT)
P('C09', 'every form with a [rip + label] operand, jcc, jmp and call: reference at any position of either code page, label at any position of any of the three '
  'pages, bound before or after the reference, remaining operands symbolic as in C02..C07; references to each kind of constant and data; four references of '
  'different kinds to one label, from either page, with the label bound at any point between them; histories of 5 (thorough: 7) operations out of '
  '{refer to label 1 or 2, bind label 1 or 2, finalize, change page} from any positions; label numbers up to 66000; 300 references to one label',
  'longer histories; positions less than 64 (histories: 1024) bytes before the end of a page; labels bound more than once; labels of another generator')
P('C10', 'two requests out of {f64, i64, i32, area of 0, 1, 5, 16 or 17 bytes, absolute address, alignment mark, data i64, data i32, data area} in either page, '
  'finalization, optionally more code and a third request and a second finalization; cursors of the three pages at any position, arbitrary old contents, arbitrary values; areas of 31, 64, 100, 255..257, 1000 and 4100 bytes; bulks of up to 12 requests (thorough: 14) over one to five kinds',
  'other histories of more than three requests or two finalizations; positions less than 1024 bytes before the end of a page; other sizes of areas')
P('C11', 'one or two absolute-address constants, requested in either page, for a label in either code page bound before or after the request or only before the '
  'second finalization, for a constant, for data, for an alignment mark and for a label in the data page; two constants for different labels; 12 (thorough: 36) constants for as many labels, bound before, between and after the finalizations, in one order; any cursor positions',
  'other histories with more than two constants; positions less than 256 bytes before the end of a page')
P('C12', 'a jmp or call at any position of either page, patched once or twice (thorough: three times), by label or address, to labels at any position of either page, '
  'whichever page is selected; every other byte of both pages by a symbolic probe; five jumps and calls patched ten times in turn', 'patching something that is not a five-byte jump or call')
P('C13', 'one emission of each kind (1, 2, 4, 8 bytes, slices of 0..8, 15..17, 40, 127, 129, 256, 300, 1025 and 4097 bytes, thorough: also 100, 512 and 4999), addressed to the selected or to a given page, from any cursor position including the '
  'end of the page, arbitrary value; three consecutive emissions; instructions and constants at the end of the page; frame condition: the other pages are write-protected in the '
  'model, the emitting page is checked by a symbolic probe position', 'other slice lengths')
P('C14', 'every alignment operation on the selected or a given page, from any cursor position including the end of the page; all three pages write-protected in the model', '')
P('C15', 'labels bound at any position of any page, queried by every query before and after emission, page changes, further labels, constants and finalization; labels in a macro block; '
  'up to three labels in any order; 17 (thorough: 63) labels in two orders over several finalizations; include() for all 2^64 addresses and every region; CodePtr arithmetic for all 47-bit addresses',
  'labels bound more than once; queries for unbound labels (C09)')
P('C16', 'a fresh memory (and after emission and finalization) at every possible address: protection, mapping and size at any offset of any page; distance of any two positions; '
  'resolution of jmp, call and lea between any positions, and of data and constants', 'failure of the system calls (C28)', harness_s=600)
P('C17', 'resolved and unresolved references, code and constants at any positions, followed by 3 (constants not yet placed, or an earlier jump patched in between: 2; thorough: 4 and 3) operations out of '
  '{emit, change page, bind the missing label, request constant, data or absolute address, finalize, align, refer to labels, refer to a new label}, a last finalization and the end of the generator; '
  'five (thorough: eight) rounds of emission and finalization in one page or in alternating pages, four (thorough: five) in arbitrary pages, three (thorough: four) with rounds that may be empty',
  'longer histories; positions less than 1024 bytes before the end of a page')
P('C18', 'two and three (thorough: four) rounds of emission, requests and finalization, arbitrary amounts of code up to 64 MiB on every page per round, either page selected; ten (thorough: 34) rounds in four fixed patterns of pages; real instructions on a fresh memory',
  'other histories of more rounds')
P('C19', 'blocks of up to 25 instructions (quick: one or more mnemonics for every way an instruction reaches the encoder; thorough: every form) whose operands are all expressions over one variable, '
  'for about 55 variable names: common ones and every name bound in the sources of the macro at check time; labels of these names; expressions of several tokens and types as displacement (plain and negated), immediate and register number, for all values',
  'the name jit, which inside a block is the generator; expressions with side effects (C26); other names', ['Names not bound in the sources of the macro cannot collide with its variables.'])
P('C20', 'every form at the start of a fresh memory and at any position of either page, alone and after and before other instructions, every pair of about 100 (thorough: 200) instructions as neighbours in one block, all operands symbolic as in C02..C08 (quick: two addressing shapes, thorough: four); '
  'label references of nine kinds; labels and dq inside a block', 'positions less than 64 bytes before the end of a page; other neighbouring instructions')
P('C21', 'every general register name in lower, upper and mixed case and every xmm name in every operand position of 24 (thorough: 33) mnemonics that read their operands differently, two names in every position of all other forms, pairs of names including the same name twice, '
  'the remaining operands symbolic; all condition names; the literals listed in harness/hc/C21.rs', 'other literals')
P('C22', 'a block of 0, 1, 2, 3, 5, 8, 33 or 200 (thorough: 700) arbitrary bytes at any position of either page, behind an earlier block or not, with constants behind it, code in the other page, and code not yet finalized; '
  'instructions on a fresh memory, listed twice; the temporary file or the disassembler not available',
  'what objdump itself prints; other sizes of blocks; a listing before the first finalization (panics); failure of reading or writing in the middle',
  ['objdump prints, behind its header lines, lines for exactly the bytes of the file it is given (a stand-in that spells every byte takes its place, harness/hc/C22.rs).',
   'The C library functions that file and process handling use are replaced by a small model, in the symbolic and in the native run alike.'])
P('C23', 'the macro itself on token sequences: every identifier of 1 to 10 bytes (11, 12 with 8 operand lists) as mnemonic before 38 lists of operands; every identifier of up to 12 bytes as label; every identifier of up to 6 bytes as operand '
  '(alone, before parentheses, before a number) in 47 places; memory operands of 23 beginnings, followed by any token (two- and three-letter identifier, one- and two-digit number, any punctuation, groups, literals) and six endings (thorough: five mnemonics); '
  'scales and displacements of up to 3 (thorough: 4) digits and around the limits of 8, 32 and 64 bits; any token instead of the generator or the comma behind it; 8 blocks with any token replaced, inserted or removed, or two neighbours exchanged, at any place',
  'token sequences further away from valid ones; identifiers that are not ASCII; raw identifiers, lifetimes and literals other than decimal integers (float literals of dq); the contents of parenthesised immediates and xmm(..), which rustc judges',
  ['The sources of the macro are compiled outside of the compiler, on the token streams that proc_macro2 implements itself; `parse_macro_input!` is read as "parse or return the error".',
   'Identifiers accepted as label names are those that syn accepts (not a Rust keyword).'], macro=True)
P('C24', 'one access by position to any of the three pages at all 2^64 positions, arbitrary contents and value, cursors at any position; every other byte by a symbolic probe, the other pages write-protected in the model; '
  'selection of a page for all 2^64 numbers; arithmetic on positions up to the size of a page', '')
P('C25', 'two generators at any addresses, one with code, constants and an unresolved reference, the other operated by two operations out of {emit, change page, refer to and bind labels, request constants, data and addresses, align, finalize}, '
  'then both finalized; every byte of the other one write-protected in the model; cursors at any position; a generator created after another one; six generators in turn, some dropped on the way', 'other histories; threads')
P('C26', 'every form with an expression operand, two (thorough: four) addressing shapes, every value for which the instruction is emitted; blocks of 24 instructions: the evaluations belong to the instructions in turn',
  'instructions that panic; the order of the operands of one instruction')
P('C27', 'every form with a computed register number, two (thorough: four) addressing shapes, all 2^64 values of every register number at once, the other operands symbolic as in C02..C08', '')
P('C28', 'creation by new() or default(), first or second, with any one of the first four protection changes failing or the allocation failing; any offset of any page; one history of uses with failing protection changes',
  'several failures in one creation; failures of small allocations')
