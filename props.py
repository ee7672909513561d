"""Which harness runs decide which property, and within which bounds."""

COMMON_ASSUMPTIONS = [
    "the LLVM bitcode rustc emits for the crate (release profile with overflow checks) means what the engine's interpretation of it means; sampled paths are replayed natively on every run",
    "Z3's answers are right; a sample of the discharged queries is repeated with cvc5 and a newer Z3 on every run",
    "memory allocation succeeds",
]


def job(h, p=(), **kw):
    return dict(h=h, p=dict(enumerate(p)), **kw)


T = ("thorough",)


def grid(h, rows, **kw):
    return [job(h, r, **kw) for r in rows]


# Statements and elements of the structured programs (harness/src/flow.rs).
E, LOCAL, IF, IFELSE, WHILE, REPEAT, FOR, TFOR, BREAK, BOOL, TABLE, CLOSURE, RETURN, CALL = (1 << i for i in range(14))
CONTROL = E | LOCAL | IF | IFELSE | WHILE | REPEAT | FOR | TFOR | BREAK
ACTIONS, LINES, STACK, CONSTS, RULES, STRIP, TABLES = (1 << i for i in range(7))
E_CONST, E_CALL, E_TABLE, E_OR, E_NIL, E_CLOSURE, E_HASH, E_EQ, E_ADD, E_SELF, E_OPEN, E_LOCAL, E_OP, E_VARARG = (1 << i for i in range(14))
ALL_E = 4095


def flow(kinds, n, depth, decisions, checks, fin=50, fout=50, nparams=1, vararg=0, elems=0, vars=1, v51=0, ekinds=1, plain=0, more=0, pad=0, syms=0, **kw):
    kw.setdefault("covers", ["converted"])
    kw.setdefault("workers", 4)
    return job("h_flow", [kinds, n, depth, decisions, checks, fin, fout, nparams, vararg, elems, vars, v51, ekinds, plain, more, pad, syms], **kw)


# Formats are numbered by their deviations from little-endian, 32-bit int,
# 64-bit size_t, 32-bit instructions, 64-bit float: 1 big-endian, 2 64-bit int,
# 4 32-bit size_t, 8 64-bit instructions, 16 32-bit number, 32 integral number.
FMTS = [0, 1, 6, 9, 14, 16, 23, 31]

# Everything at once, for Lua 5.1 input.
V51 = ACTIONS | TABLES | LINES | STACK | RULES | STRIP

PROPS = {
    "C01": dict(
        jobs=[
            job("h_window", [51, 0, 4, 50], workers=2, covers=["converted", "rejected"]),
            job("h_window", [51, 31, 4, 3], workers=4, cost=8),
            job("h_window", [50, 0, 2, 50], workers=2, cost=3, covers=["converted", "rejected"]),
            job("h_window", [50, 23, 2, 50], workers=2, cost=3),
            job("h_short", [51, 0, 8], workers=2, covers=["rejected"]),
            job("h_short", [51, 15, 5], workers=2),
            job("h_short", [50, 0, 4], workers=2, cost=3),
            job("h_words", [50, 1, 32, 50, 0], workers=4, cost=5, covers=["converted", "rejected"]),
            job("h_words", [50, 1, 32, 50, 2], workers=2, cost=2),
            job("h_words", [50, 1, 5, 3, 0], workers=4, cost=5),
            job("h_words", [51, 2, 50, 50, 2], workers=2, cost=2),
            job("h_words", [51, 1, 3, 5, 0], workers=2, cost=2, covers=["converted", "rejected"]),
            job("h_words", [51, 1, 5, 1, 0], workers=2, cost=2, covers=["converted", "rejected"]),
        ]
        + [job("h_window", [50, f, 3, 50], workers=4, cost=8, tiers=T, time=800) for f in (0, 14)]
        + [job("h_window", [51, f, 8, 50], workers=4, cost=8, tiers=T, time=1500) for f in (0,)]
        + [job("h_words", [51, 3, 50, 50, 0], workers=8, cost=20, tiers=T, time=800), job("h_words", [51, 2, 3, 5, 0], workers=8, cost=20, tiers=T, time=1800)],
        bounds="valid chunks with 7 instructions, constants of three kinds, a local, an upvalue, a nested function, in which any 2 (Lua 5.0) or 4 (Lua 5.1) consecutive bytes are arbitrary; every prefix of them continued with up to 8 (4) arbitrary bytes; functions of 1 (5.0, 5.1 with other page sizes) or 2 (5.1) arbitrary instruction words and a return, any parameter and stack count, stripped or not; several formats and table page sizes",
        outside="nesting of functions deep enough to exhaust the call stack; several separate corrupted places at once; chunks larger than a few hundred bytes",
        assumptions=["fields_per_flush settings are at least 1"],
    ),
    "C02": dict(
        jobs=[
            job("h_fields", workers=3, covers=["unsupported", "supported"]),
            job("h_signature", covers=["signature", "no signature"]),
            job("h_combinations", [50], workers=3, covers=["decoded"]),
            job("h_combinations", [51], workers=3, covers=["decoded"]),
        ],
        bounds="every value of all 8 (Lua 5.1) or 10 (5.0) bytes after the signature; signatures of 0 to 5 arbitrary bytes; all 64 combinations of byte order, widths and number kind, with symbolic operands, lines, constants and names",
        outside="settings with a changed input signature",
    ),
    "C03": dict(
        jobs=[job("h_container", [v, f], workers=2, covers=["converted"]) for v in (50, 51) for f in (0, 14, 31, 57)],
        bounds="all 64 output formats with any format byte and 4 output signatures, from 4 input formats of both versions; one function with a constant of every kind, debug information and a nested function, fields symbolic",
        outside="other signatures; larger functions (C04, C09)",
    ),
    "C04": dict(
        jobs=grid("h_struct51", [[0, 0, z, d] for z, d in ((0, 0), (1, 0), (2, 1))] + [[f, g, z, d] for f, g in ((0, 15), (31, 16), (7, 0), (38, 41)) for z, d in ((0, 0), (1, 0), (2, 1))], covers=["converted"])
        + grid("h_many", [[51, part, n, 0, g] for n, g in ((300, 5), (66000, 0)) for part in (4, 5, 6)] + [[51, 7, 300, 0, 0], [51, 8, 300, 0, 0]], covers=["converted"], steps=300000000)
        + grid("h_struct51", [[f, g, 3, 1] for f, g in ((0, 0), (9, 6), (14, 1))], tiers=T, workers=4, time=800)
        + grid("h_struct51", [[0, 6, 2, 2]], tiers=T, workers=4, time=800),
        bounds="functions with up to 2 constants of any kind, 2 locals, 2 upvalue names, 2 nested functions (one of these groups at a time), strings of up to 1 byte, every other field an arbitrary value; 5 format pairs; lists of 300 and 66000 constants, instructions and lines, and locals, and of 300 upvalue names and nested functions, with arbitrary first, middle and last entry; thorough: all groups together, nesting depth 2",
        outside="lists and strings of other lengths, deeper nesting; numbers that change type (C06); counters that do not fit a narrower output integer",
    ),
    "C05": dict(
        jobs=grid("h_strings", [[v, place, n, f, g] for v in (50, 51) for place in range(7) for n, f, g in ((0, 0, 4), (3, 4, 1))], covers=["converted"])
        + grid("h_many", [[v, place, 66000, 0, 4] for v in (50, 51) for place in range(4)], covers=["converted"], steps=300000000)
        + grid("h_strings", [[v, 1, n, f, g] for v in (50, 51) for n, f, g in ((8, 0, 0), (127, 1, 0), (128, 0, 5), (300, 4, 0))], covers=["converted"])
        + grid("h_strings", [[v, place, n, f, g] for v in (50, 51) for place in range(7) for n, f, g in ((1, 0, 0), (8, 5, 0), (260, 0, 1))], covers=["converted"], tiers=T)
        + grid("h_strings", [[v, 1, n, 0, 4] for v in (50, 51) for n in (2, 4, 5, 6, 7, 16, 17, 64, 255, 256, 1000, 4096)], covers=["converted"], tiers=T),
        bounds="all strings of 0, 3 and 8 arbitrary bytes, and strings of 127, 128 and 300 bytes with arbitrary first and last two bytes, and of 66000 bytes with arbitrary first, middle and last byte, in each of 7 places, both versions",
        outside="other lengths (thorough adds 1, 2, 4-7, 16, 17, 64, 255, 256, 1000, 4096)",
    ),
    "C06": dict(
        jobs=[
            job("h_numbers", [f, g, v], workers=1, values=5000, cost=2, **({"split": 16} if (f, g) in ((32, 0), (32, 16)) else {}))
            for v in (50, 51)
            for f, g in ((0, 32), (32, 0), (32, 16), (16, 32), (0, 48), (48, 0), (0, 16), (16, 0), (32, 32), (32, 48), (48, 32), (0, 0))
        ],
        covers=["converted", "rejected"],
        bounds="every bit pattern of one number constant, for 12 pairs of number formats of both versions",
        outside="the pairs that keep the type are covered for one byte order only here (C02, C04, C09 vary it)",
    ),
    "C07": dict(
        jobs=[job("h_reenc51", [i]) for i in range(8)],
        covers=["invalid opcode", "re-encoded", "rejected"],
        bounds="one instruction word of any opcode and any operand values, for 8 pairs of input and output operand layouts",
        outside="other layouts; instructions that depend on their neighbours (C15)",
    ),
    "C08": dict(
        jobs=grid("h_truncated", [[v, f] for v in (50, 51) for f in (0, 7, 14, 17)], covers=["cut in the signature", "cut after the signature"])
        + grid("h_trailing", [[v, f, n] for v in (50, 51) for f in (0, 14) for n in (0, 1, 2, 9)]),
        covers=["complete", "rejected"],
        bounds="one chunk with something of everything and symbolic field values, cut at every byte, or followed by 1, 2 or 9 arbitrary bytes; 4 formats (2 for trailing bytes), both versions",
        outside="other chunk shapes",
    ),
    "C09": dict(
        jobs=grid("h_struct50", [[0, 0, z, d] for z, d in ((0, 0), (1, 0), (2, 1))] + [[f, g, z, d] for f, g in ((0, 15), (31, 16), (7, 0), (38, 41)) for z, d in ((0, 0), (1, 0), (2, 1))], covers=["converted"])
        + grid("h_many", [[50, part, n, 0, g] for n, g in ((300, 5), (66000, 0)) for part in (4, 6)] + [[50, 5, 3000, 0, 0], [50, 7, 300, 0, 0], [50, 8, 300, 0, 0]], covers=["converted"], steps=300000000)
        + grid("h_struct50", [[f, g, 3, 1] for f, g in ((0, 0), (9, 6), (14, 1))], tiers=T, workers=4, time=800)
        + grid("h_struct50", [[0, 6, 2, 2]], tiers=T, workers=4, time=800),
        bounds="functions with up to 2 constants of any kind, 2 locals, 2 upvalue names, 2 nested functions (one of these groups at a time), strings of up to 1 byte, every other field an arbitrary value; 5 format pairs; lists of 300 and 66000 constants and locals, 3000 instructions and lines, 300 upvalue names and nested functions, with arbitrary first, middle and last entry; thorough: all groups together, nesting depth 2",
        outside="lists and strings of other lengths, deeper nesting; variadic functions (C17)",
    ),
    "C10": dict(
        jobs=grid("h_identity", [[f, n] for f, n in ((0, 0), (0, 1), (0, 4), (0, 30), (1, 7), (6, 7), (8, 7), (16, 7), (32, 7), (63, 7))], covers=["returned"])
        + grid("h_twice", [[f, g, h, z, d] for f, g, h in ((0, 0, 15), (7, 8, 0), (31, 16, 22)) for z, d in ((0, 0), (1, 0), (2, 1))], covers=["converted"])
        + grid("h_twice", [[f, g, h, 3, 1] for f, g, h in ((0, 0, 15), (7, 8, 0))], covers=["converted"], tiers=T, workers=4, time=800),
        bounds="identity: any format byte and any body of up to 30 bytes, 7 formats; idempotence and detours: functions as in C04, 3 triples of formats",
        outside="bodies longer than 30 bytes; larger functions",
    ),
    "C16": dict(
        jobs=grid("h_encoding", [[v, f, f2, g, z] for v in (50, 51) for f, f2, g in ((0, 15, 0), (7, 8, 6), (1, 14, 9)) for z in (0, 1, 2)], covers=["converted"]),
        bounds="functions as in C04 and C09, each written in two of 6 encodings",
        outside="larger functions",
    ),
    "C22": dict(
        jobs=[job("h_layouts", workers=4, covers=["accepted", "rejected"]), job("h_too_wide", [50], covers=["fits", "too wide"]), job("h_too_wide", [51], covers=["fits", "too wide"])],
        bounds="every specification of four operands with arbitrary 64-bit sizes; 4 output layouts against both instruction widths",
    ),
    "C11": dict(
        jobs=[job("h_one50", [l, s], covers=["converted", "invalid opcode"]) for l in range(8) for s in range(4)]
        + [
            flow(E | BOOL | CALL | RETURN | CLOSURE, 3, 1, 3, ACTIONS, cost=3),
        ],
        bounds="one instruction word: all 2^32 (2^46) words of the standard and 7 other pairs of operand layouts with each of 4 limits between registers and constants (128, 200, 250, 256) and any stack size up to 249; loops, TFORPREP and SETLIST are the subject of C13 to C15. Operands that an instruction does not use are 0",
        outside="limits above 256; layouts other than the 8 pairs",
    ),
    "C12": dict(
        jobs=[
            flow(CONTROL, 3, 3, 5, ACTIONS, vars=2, cost=18),
            flow(CONTROL & ~TFOR, 4, 3, 3, ACTIONS, nparams=0, cost=30),
            flow(E | IF | WHILE | BREAK | TABLE, 4, 3, 4, ACTIONS | TABLES, fin=2, fout=3, elems=3, cost=12),
            flow(E | IF | FOR | BREAK | TABLE, 3, 3, 4, ACTIONS | TABLES, fin=3, fout=2, elems=2, plain=2, ekinds=E_OR, cost=12),
            flow(LOCAL | IF | FOR | BOOL, 4, 3, 5, ACTIONS, cost=8),
            flow(E | IFELSE | REPEAT | RETURN | CALL | CLOSURE | TABLE | BOOL | TFOR, 3, 2, 4, ACTIONS, elems=1, cost=10),
            flow(E | IF | WHILE | FOR | BREAK, 3, 3, 3, ACTIONS, vararg=1, cost=4),
            flow(CONTROL, 2, 2, 3, ACTIONS, vars=2, pad=300, cost=2),
            flow(CONTROL, 2, 2, 2, ACTIONS, vararg=1, pad=140, cost=2),
            flow(FOR | IF | WHILE, 1, 1, 1, ACTIONS, pad=33000, steps=500000000, cost=30),
        ]
        + [
            flow(CONTROL, 4, 4, 6, ACTIONS, vars=2, tiers=T, workers=8, cost=400, time=3000),
            flow(CONTROL & ~TFOR, 5, 4, 4, ACTIONS, tiers=T, workers=8, cost=400, time=3000),
            flow(E | IF | WHILE | BREAK | TABLE | TFOR, 5, 4, 4, ACTIONS | TABLES, fin=2, fout=3, elems=3, tiers=T, workers=8, cost=400, time=3000),
        ],
        bounds="all structured programs, compiled as Lua 5.0 does, of up to 3 statements out of 9 kinds (reads, locals, if, if-else, while, repeat, both for loops, break), of up to 4 out of smaller sets that include table constructors that are repaged, comparisons as values, calls, closures and returns, nested up to 3 deep, with every outcome of the first 3 to 5 decisions; the registers in use are compared at every action",
        outside="larger programs; jumps no Lua compiler makes; bodies longer than a jump can cross after expansion",
        assumptions=["fields_per_flush settings are at least 1"],
    ),
    "C13": dict(
        jobs=[
            flow(E | FOR | BREAK | IF, 4, 4, 6, ACTIONS, cost=15),
            flow(LOCAL | FOR, 4, 3, 7, ACTIONS, nparams=0, cost=5),
            flow(FOR | IFELSE | WHILE | BREAK, 4, 4, 5, ACTIONS, cost=15),
            flow(FOR | TFOR | BREAK | E, 3, 3, 6, ACTIONS, vars=2, cost=8),
            flow(FOR | REPEAT | BREAK | BOOL | CALL, 4, 3, 4, ACTIONS, cost=15),
            flow(FOR | TABLE | E | BREAK, 3, 3, 5, ACTIONS | TABLES, fin=2, fout=5, elems=4, cost=5),
            flow(E | FOR | BREAK, 3, 3, 5, ACTIONS, nparams=2, vararg=1, cost=3),
            flow(FOR | IF | BREAK, 2, 2, 4, ACTIONS, pad=300, cost=2),
            flow(FOR | LOCAL, 3, 2, 4, ACTIONS, nparams=120, pad=150, cost=3),
        ]
        + [
            flow(E | LOCAL | FOR | BREAK | IF, 5, 5, 8, ACTIONS, tiers=T, workers=8, cost=400, time=3000),
            flow(FOR | IFELSE | WHILE | REPEAT | BREAK | E, 5, 4, 5, ACTIONS, tiers=T, workers=8, cost=400, time=3000),
        ],
        bounds="all programs of up to 4 statements, for loops nested up to 4 deep, combined with every other kind of loop, conditions, breaks, locals, comparisons, calls, tables, with an empty body or not; start, limit and step are arbitrary (the comparison of index and limit goes either way each time), first 4 to 7 decisions",
        outside="larger programs, more iterations",
    ),
    "C14": dict(
        jobs=[
            flow(E | TFOR | BREAK, 3, 3, 6, ACTIONS, vars=3, cost=15),
            flow(TFOR | IF | LOCAL, 3, 3, 6, ACTIONS, vars=2, nparams=0, cost=10),
            flow(TFOR | FOR | WHILE | REPEAT | BREAK, 3, 3, 5, ACTIONS, vars=2, cost=15),
            flow(TFOR | IFELSE | BREAK | BOOL, 3, 2, 5, ACTIONS, vars=2, cost=8),
            flow(E | TFOR, 2, 2, 7, ACTIONS, vars=6, cost=5),
            flow(E | TFOR | TABLE, 3, 2, 5, ACTIONS | TABLES, fin=2, fout=3, elems=3, cost=5),
            flow(E | TFOR | BREAK, 3, 3, 4, ACTIONS, vars=2, vararg=1, cost=5),
            flow(TFOR | IF | BREAK, 2, 2, 4, ACTIONS, vars=3, pad=300, cost=2),
            flow(TFOR | LOCAL, 2, 2, 4, ACTIONS, nparams=120, vars=3, pad=150, cost=3),
        ]
        + [
            flow(E | TFOR | BREAK | IF, 4, 4, 7, ACTIONS, vars=3, tiers=T, workers=8, cost=400, time=3000),
            flow(TFOR | FOR | WHILE | REPEAT | BREAK | E, 4, 4, 5, ACTIONS, vars=2, tiers=T, workers=8, cost=400, time=3000),
            flow(E | TFOR, 3, 2, 7, ACTIONS, vars=12, tiers=T, workers=4, cost=100, time=2000),
        ],
        bounds="all programs of up to 3 statements, generic for loops with 1 to 3 (alone 6) variables nested up to 3 deep, combined with the other loops, conditions, breaks, locals, over tables and over functions with arbitrary results, first 4 to 7 decisions",
        outside="larger programs, more iterations, more variables",
    ),
    "C15": dict(
        jobs=[flow(TABLE, 1, 1, 4, ACTIONS | TABLES | STACK, fin=i, fout=o, elems=e, v51=v, ekinds=ALL_E, workers=2, cost=7, covers=["converted", "table"]) for v in (0, 1) for i, o, e in ((2, 3, 3), (3, 2, 3), (1, 2, 3), (2, 1, 3))]
        + [flow(TABLE, 1, 1, 0, ACTIONS | TABLES | STACK, fin=i, fout=o, elems=12, v51=v, ekinds=1, workers=1, cost=1, covers=["converted", "table"]) for v in (0, 1) for i in (1, 2, 3, 5) for o in (1, 2, 4, 5)]
        + [flow(TABLE, 1, 1, 2, ACTIONS | TABLES | STACK, fin=i, fout=o, elems=1, v51=v, ekinds=ALL_E, plain=n, nparams=q, workers=1, cost=2, covers=["converted", "table"]) for v, i, o in ((0, 32, 50), (0, 50, 32), (1, 50, 32), (1, 32, 50)) for n, q in ((31, 0), (32, 1), (49, 0), (50, 1), (64, 0), (99, 1))]
        + [flow(TABLE, 1, 1, 2, ACTIONS | TABLES | STACK, fin=i, fout=o, elems=5, v51=v, ekinds=E_CONST | E_NIL | E_CALL, workers=2, cost=3, covers=["converted", "table"]) for v, i, o in ((0, 5, 3), (0, 32, 4), (1, 5, 3), (1, 50, 2))]
        + [flow(TABLE, 1, 1, 2, ACTIONS | TABLES | STACK, fin=i, fout=o, elems=2, plain=n, v51=v, vararg=2 * v, ekinds=E_OP | E_CONST | (E_VARARG if v else 0), cost=2, covers=["converted", "table"]) for v, i, o, n in ((0, 3, 2, 1), (0, 2, 3, 1), (0, 50, 3, 2), (0, 32, 50, 31), (1, 3, 2, 2), (1, 2, 3, 1), (1, 50, 3, 2), (1, 20, 50, 19))]
        + [flow(TABLE, 1, 1, 2, ACTIONS | TABLES | STACK, fin=i, fout=o, elems=4, v51=v, ekinds=E_NIL | E_TABLE | E_CONST | E_SELF, workers=2, cost=3, covers=["converted", "table"]) for v, i, o in ((0, 5, 3), (0, 4, 3), (0, 5, 4), (1, 5, 3), (1, 4, 3), (1, 5, 4))]
        + [flow(TABLE, 1, 1, 2, ACTIONS | TABLES, fin=3, fout=3, elems=5, v51=v, ekinds=E_CALL | E_OPEN | E_HASH, workers=1, cost=2, covers=["converted", "table"]) for v in (0, 1)]
        + [flow(TABLE | IF, 3, 2, 3, ACTIONS | TABLES, fin=2, fout=3, elems=3, v51=v, ekinds=E_CONST | E_OPEN, workers=2, cost=5, covers=["converted", "table"]) for v in (0, 1)]
        + [flow(TABLE, 1, 1, 4, ACTIONS | TABLES | STACK, fin=i, fout=o, elems=4, v51=v, ekinds=ALL_E, tiers=T, cost=60, time=1500, covers=["converted", "table"]) for v in (0, 1) for i in (1, 2, 3) for o in (1, 2, 3, 4) if i != o]
        + [flow(TABLE, 1, 1, 2, ACTIONS | TABLES | STACK, fin=i, fout=o, elems=2, v51=v, ekinds=ALL_E, plain=n, workers=2, cost=10, tiers=T, time=900, covers=["converted", "table"]) for v, i, o in ((0, 32, 50), (0, 50, 32), (1, 50, 32), (1, 32, 50), (1, 50, 20), (0, 32, 33)) for n in range(15, 110, 6)],
        bounds="all constructors of up to 3 entries of 12 kinds (constants, locals, calls, methods, nested tables, disjunctions, comparisons, sums, merged nils, closures, entries with a key, a final call with 0 to 3 results) for 4 pairs of page sizes of 1 to 3; of up to 12 constants for 16 pairs; of 31, 32, 49, 50, 64 or 99 constants and one entry of any kind for the sizes 32 and 50; every other instruction that computes a value, and Lua 5.1's extra arguments, as one of up to 2 entries after up to 31 constants; several tables, also in conditions; both versions",
        outside="more entries of arbitrary kinds; constructors with a key that is also a list index, where the order of stores decides; Lua 5.1 constructors with more than 511 pages; other page sizes",
        assumptions=["fields_per_flush settings are at least 1"],
    ),
    "C17": dict(
        jobs=[
            flow(E | LOCAL | IF | WHILE | REPEAT | FOR | BREAK, 3, 2, 3, ACTIONS | TABLES | LINES, nparams=q, vararg=1, cost=8, covers=["converted", "table"]) for q in (0, 1, 2)
        ]
        + [
            flow(E | TFOR | CALL | RETURN | CLOSURE, 3, 2, 3, ACTIONS | TABLES | LINES | RULES, vararg=1, vars=2, cost=8, covers=["converted", "table"]),
            flow(TABLE | E, 2, 1, 2, ACTIONS | TABLES | LINES, fin=2, fout=3, vararg=1, elems=3, ekinds=E_CONST | E_OPEN | E_LOCAL, cost=5, covers=["converted", "table"]),
            flow(E | FOR | TFOR | LOCAL, 2, 2, 2, ACTIONS | TABLES, nparams=130, vararg=1, vars=2, cost=4, covers=["converted", "table"]),
            flow(E | FOR | TABLE, 2, 1, 2, ACTIONS | TABLES, nparams=60, more=20, vararg=1, fin=3, fout=2, elems=2, cost=4, covers=["converted", "table"]),
            flow(E | CALL | IF, 1, 1, 1, RULES, nparams=0, more=248, vararg=1, covers=["converted"]),
            flow(TABLE, 1, 1, 2, ACTIONS | TABLES, fin=32, fout=2, nparams=0, vararg=1, elems=3, ekinds=E_CONST | E_CALL | E_LOCAL, cost=3, covers=["converted", "table"]),
            flow(CONTROL, 4, 3, 3, ACTIONS | TABLES | LINES, vararg=1, tiers=T, workers=8, cost=400, time=3000, covers=["converted", "table"]),
        ],
        bounds="functions with 0 to 2 parameters and bodies of up to 3 statements of any kind, called with 0 to 3 extra arguments; first 2 to 3 decisions",
        outside="the field `n` of the argument table, which the added code does not set (as its comment says, it is `local arg = {...}`); larger bodies; more arguments",
    ),
    "C18": dict(
        jobs=[job("h_one50", [l, s], covers=["converted"]) for l in (0, 1) for s in (0, 2)]
        + [
            flow(CONTROL, 2, 2, 0, RULES, nparams=225, more=24, vars=3, cost=2),
            flow(TFOR | FOR | E, 3, 3, 0, RULES, nparams=225, more=24, vararg=1, cost=2),
            flow(TFOR, 1, 1, 0, RULES, nparams=200, more=48, vars=20, covers=["converted", "rejected"]),
            flow(E | CALL | BOOL | CLOSURE | RETURN, 2, 1, 0, RULES, nparams=235, more=14),
            flow(TABLE, 1, 1, 0, RULES, fin=2, fout=5, nparams=235, more=14, elems=4, ekinds=E_CONST | E_CALL | E_TABLE | E_HASH | E_SELF | E_NIL, cost=3, covers=["converted", "rejected"]),
            flow(TABLE, 1, 1, 0, RULES, fin=32, fout=50, nparams=180, more=58, elems=2, plain=44, ekinds=E_CONST | E_CALL | E_OPEN | E_NIL | E_HASH, covers=["converted", "rejected"]),
            flow(TABLE, 1, 1, 0, RULES, fin=50, fout=32, nparams=190, more=58, elems=2, plain=31, ekinds=E_CONST | E_CALL | E_OPEN | E_NIL | E_HASH),
            flow(TABLE, 1, 1, 0, RULES, fin=2, fout=5, nparams=235, more=14, elems=3, v51=1, ekinds=ALL_E, covers=["converted", "rejected"]),
            flow(TABLE, 1, 1, 0, RULES, fin=3, fout=5, nparams=235, more=12, elems=2, plain=2, ekinds=E_OP | E_CALL, covers=["converted", "rejected"]),
            flow(TABLE, 1, 1, 0, RULES, fin=3, fout=5, nparams=235, more=12, elems=2, plain=2, v51=1, vararg=2, ekinds=E_OP | E_VARARG, covers=["converted", "rejected"]),
            flow(TABLE, 1, 1, 0, RULES, fin=32, fout=50, nparams=180, more=58, elems=2, plain=44, v51=1, ekinds=E_CONST | E_CALL | E_OPEN | E_NIL | E_HASH, covers=["converted", "rejected"]),
            flow(CONTROL, 3, 3, 0, RULES, nparams=0, vars=3, cost=4),
            flow(CONTROL, 4, 3, 0, RULES, nparams=235, more=12, vars=3, tiers=T, workers=8, cost=200, time=2000),
            flow(TABLE | E, 2, 1, 0, RULES, fin=3, fout=5, nparams=235, more=14, elems=4, ekinds=ALL_E, tiers=T, workers=8, cost=200, time=2000),
        ],
        bounds="single instructions with all operands and any stated stack size; all structured programs of up to 3 statements of 9 kinds below any number of locals that Lua 5.0's limit of 250 permits, generic loops of up to 20 variables, table constructors of up to 46 elements for several page sizes",
        outside="functions that use more registers than they state",
        assumptions=["the input states a stack size that covers its registers, at most 249"],
    ),
    "C19": dict(
        jobs=[
            flow(CONTROL, 3, 3, 3, LINES, vars=2, cost=10),
            flow(E | LOCAL | IF | FOR | BREAK | BOOL, 4, 3, 3, LINES, cost=20),
            flow(E | TFOR | CALL | RETURN | CLOSURE, 3, 2, 3, LINES, vars=3, cost=6),
            flow(TABLE, 1, 1, 1, LINES, fin=2, fout=3, elems=3, ekinds=ALL_E, cost=3),
            flow(TABLE | E, 2, 1, 1, LINES, fin=2, fout=3, elems=3, ekinds=E_CALL | E_ADD | E_NIL, cost=5),
            flow(TABLE | E, 2, 1, 1, LINES, fin=3, fout=2, elems=3, ekinds=E_CONST | E_CALL | E_NIL | E_CLOSURE | E_HASH, cost=5),
            flow(TABLE | E, 2, 1, 1, LINES, fin=2, fout=3, elems=4, ekinds=E_CALL | E_NIL | E_HASH, v51=1, cost=5),
            flow(E | IF | FOR | TABLE, 3, 2, 3, LINES, fin=2, fout=3, elems=3, ekinds=E_CALL, nparams=1, vararg=1, cost=6),
            flow(CONTROL, 4, 3, 3, LINES, vars=2, tiers=T, workers=8, cost=400, time=3000),
        ],
        bounds="programs of up to 3 or 4 statements as in C12 to C15, every instruction with an arbitrary 32-bit line; compared is the line of every action (global access, call, arithmetic, comparison, table access, return)",
        outside="lines of instructions that can neither fail nor be observed; the ranges of local variables",
    ),
    "C20": dict(
        jobs=[
            job("h_names", [FOR | TFOR, 2, 2, 0, 1, 0], covers=["converted"]),
            job("h_names", [FOR | TFOR, 2, 2, 0, 2, 0], covers=["converted"]),
            job("h_names", [FOR | TFOR, 2, 2, 0, 3, 0], covers=["converted"], workers=4, cost=2),
            job("h_names", [FOR | TFOR, 3, 3, 0, 2, 0], covers=["converted"], workers=4, cost=3),
            job("h_names", [FOR | TFOR, 2, 2, 0, 2, 120], covers=["converted"], workers=4, cost=2),
            job("h_names", [FOR, 1, 1, 0, 2, 1200], covers=["converted"]),
            job("h_names", [FOR | TFOR | E, 4, 3, 21, 2, 0], covers=["converted"], workers=4, cost=4),
            flow(TFOR | E | FOR, 2, 2, 3, ACTIONS | CONSTS, vars=2, syms=5),
            flow(TFOR | E | FOR, 2, 2, 3, ACTIONS | CONSTS, vars=2, syms=6),
            flow(TFOR | E | FOR, 2, 2, 3, ACTIONS | CONSTS, vars=2, syms=8),
            flow(CONTROL, 3, 2, 0, CONSTS, vars=2, cost=2),
            flow(TABLE | BOOL | CALL | CLOSURE, 2, 1, 0, CONSTS, fin=2, fout=3, elems=2, ekinds=ALL_E, cost=2),
            job("h_names", [FOR | TFOR | E, 5, 4, 0, 3, 0], covers=["converted"], tiers=T, workers=8, cost=60, time=1500),
        ],
        bounds="programs of up to 4 statements with for loops of both kinds, nested up to 3 deep, whose functions have up to 3 string constants of arbitrary bytes (ASCII) of any length that an added string constant has there; functions of over 100 and 1000 instructions; global names of 4, 5 and 7 arbitrary bytes in programs that are executed",
        outside="string constants of other lengths than the added ones (which cannot be equal to them)",
    ),
    "C21": dict(
        jobs=[
            flow(CONTROL, 3, 3, 0, RULES, vars=3, cost=4),
            flow(CONTROL & ~TFOR, 4, 3, 0, RULES, nparams=0, cost=10),
            flow(CONTROL | BOOL | CLOSURE | RETURN | CALL | TABLE, 3, 2, 0, RULES, fin=2, fout=3, elems=3, nparams=0, cost=10),
            flow(E | IF | FOR | TFOR | BREAK, 3, 3, 0, RULES, vararg=1, cost=2),
            flow(CONTROL | TABLE | BOOL, 2, 2, 0, RULES, fin=2, fout=3, elems=3, vars=3, pad=300, cost=2),
        ]
        + [flow(TABLE, 1, 1, 0, RULES, fin=i, fout=o, elems=3, ekinds=ALL_E, v51=v, workers=2, cost=3) for i, o in ((2, 3), (3, 2)) for v in (0, 1)]
        + [flow(TABLE, 1, 1, 0, RULES, fin=i, fout=o, elems=1, ekinds=ALL_E, plain=n, workers=1, cost=1) for i, o in ((32, 50), (50, 32)) for n in (31, 49, 64)]
        + [flow(CONTROL | BOOL | RETURN, 4, 3, 0, RULES, vars=2, tiers=T, workers=8, cost=200, time=3000), flow(CONTROL, 5, 4, 0, RULES, tiers=T, workers=8, cost=400, time=3000)],
        bounds="all programs of up to 3 statements of 14 kinds, up to 4 of 8 kinds, table constructors as in C15; every rule of Lua 5.1's bytecode checker about one function",
        outside="larger programs",
    ),
    "C23": dict(
        jobs=[
            flow(CONTROL, 3, 3, 0, STRIP, vars=2, cost=5),
            flow(CONTROL | BOOL | CLOSURE | RETURN | CALL | TABLE, 2, 2, 0, STRIP, fin=2, fout=3, elems=3, nparams=0, cost=4),
            flow(E | IF | FOR | TFOR | CLOSURE, 3, 2, 0, STRIP, vararg=1, cost=3),
        ]
        + [flow(TABLE, 1, 1, 0, STRIP, fin=i, fout=o, elems=3, ekinds=ALL_E, v51=v, workers=2, cost=3) for i, o in ((2, 3), (3, 2)) for v in (0, 1)]
        + [flow(CONTROL, 4, 3, 0, STRIP, vars=2, tiers=T, workers=8, cost=200, time=3000)],
        bounds="all programs of up to 3 statements as in C12 to C17, with line information, and with lines, local variables, upvalue names and source all removed",
        outside="larger programs",
    ),
    "C24": dict(
        jobs=[
            flow(TABLE | FOR | WHILE | IF | BREAK, 3, 2, 3, V51, fin=1, fout=2, elems=3, v51=1, cost=10, covers=["converted", "table"]),
            flow(TABLE | FOR | TFOR | IFELSE | BREAK | LOCAL, 3, 2, 2, V51, fin=2, fout=1, elems=2, vars=3, v51=1, cost=20, covers=["converted", "table"]),
            flow(TABLE | TFOR | REPEAT | IFELSE | BOOL, 3, 2, 2, V51, fin=3, fout=2, elems=3, vars=2, v51=1, cost=15, covers=["converted", "table"]),
            flow(TABLE | E | CALL | CLOSURE | RETURN | FOR, 2, 2, 2, V51, fin=2, fout=3, elems=2, ekinds=E_CONST | E_OR | E_CLOSURE | E_OPEN | E_EQ, v51=1, cost=10, covers=["converted", "table"]),
            flow(TABLE | FOR | TFOR | WHILE | IF, 2, 2, 3, V51, fin=2, fout=5, elems=2, plain=3, v51=1, pad=300, cost=5, covers=["converted", "table"]),
            flow(TABLE | FOR | WHILE | TFOR, 2, 2, 3, V51, fin=50, fout=20, elems=1, plain=60, v51=1, cost=5, covers=["converted", "table"]),
            flow(TABLE | FOR | IF, 2, 2, 2, V51, fin=20, fout=50, elems=1, plain=59, nparams=100, v51=1, cost=5, covers=["converted", "table"]),
            flow(TABLE | CONTROL, 3, 2, 3, V51, fin=2, fout=3, elems=3, vars=2, v51=1, tiers=T, workers=8, cost=400, time=3000, covers=["converted", "table"]),
            flow(TABLE | FOR | IF | BREAK, 4, 3, 3, V51, fin=3, fout=2, elems=3, v51=1, tiers=T, workers=8, cost=400, time=3000, covers=["converted", "table"]),
        ],
        bounds="all programs of up to 3 statements (table constructors, both for loops, while, repeat, conditions, breaks, comparisons as values, calls, closures, returns), nested up to 2 deep, as Lua 5.1 compiles them, for 5 pairs of page sizes up to 50, some with loop bodies of 300 instructions; first 2 or 3 decisions; every instruction with an arbitrary line",
        outside="larger programs; jumps no Lua compiler makes",
    ),
}
