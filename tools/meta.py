#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run after editing)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import props  # noqa: E402

TECH = "symbolic execution of the crate's LLVM bitcode with Z3 deciding every branch and assertion; counterexamples replayed natively"

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), note=""):
    P.append(
        dict(
            line=dict(
                id=id,
                title=title,
                statement=statement,
                quantifier=dict(over=over, text=text),
                why_tests_cant=why,
                anchors=dict(
                    files=["src/" + f for f in files],
                    mechanism=[dict(name=a, where=b) for a, b in mechanism],
                    **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                    observe_at=["the bytes or the error returned by unify"],
                ),
            ),
            note=note,
        )
    )


SER = "serialization/stream.rs"
TESTS = "The tests convert a handful of chunks compiled by stock Lua and check single conversions of hand-written instruction lists; "

prop("C01", "Converting any input ends with a result or an error",
     "Converting any byte string, under any valid settings, returns either a converted chunk or an error. It never panics, never runs forever, never touches memory outside of its own buffers and asks for no memory that the size of its input does not justify.",
     ["inputs", "configurations"], "every byte string taken for a chunk; every output format; table page sizes from 1 up",
     TESTS + "none feeds damaged bytecode, and the offending values (a jump into nowhere, a register near 255, a length past the end) are single points in a huge space.",
     ["serialization/stream.rs", "function/upcast.rs", "function/builder.rs", "function/convert.rs", "function/mod.rs"],
     [("bounds-checked byte stream", "src/serialization/stream.rs"), ("instruction rewriting with index arithmetic", "src/function/upcast.rs"), ("jump and stack operand adjustment", "src/function/builder.rs")])
prop("C02", "Headers: exactly the supported ones are accepted, and decoded as they say",
     "A chunk is taken past its header exactly if signature, version, byte order and all widths are supported; otherwise the error names the first unsupported field and its value. Byte order, widths and kind of numbers that the header states are the ones by which everything after it is decoded.",
     ["inputs"], "every value of every header byte of both versions; all 64 supported combinations",
     TESTS + "only the few combinations present in the test files occur.",
     ["format/mod.rs", "lib.rs", "serialization/stream.rs", "number.rs"],
     [("header parsing", "src/format/mod.rs and src/lib.rs"), ("detection of the number kind of Lua 5.0", "src/lib.rs")],
     [("format of the input", "how all later values are read", "src/format/mod.rs")])
prop("C03", "The output is one complete Lua 5.1 chunk in exactly the requested format",
     "Whatever the input, a successful conversion returns one complete Lua 5.1 chunk with the requested signature and header and nothing after its end. Every integer, length, instruction and number in it has the width, byte order and kind that header states.",
     ["inputs", "configurations"], "all 64 output formats, any format byte, any output signature; inputs of both versions in any format",
     TESTS + "outputs are requested in the default format or a few others.",
     ["format/mod.rs", "serialization/stream.rs", "function/mod.rs", "lib.rs"],
     [("header writing", "src/format/mod.rs"), ("function writing", "src/function/mod.rs"), ("the shortcut for input that already has the format", "src/lib.rs")])
prop("C04", "Lua 5.1 input: everything in a function survives a change of format",
     "Converting a Lua 5.1 chunk to another format keeps, in every function at every nesting level, the source name, line numbers, parameter, upvalue and stack counts, vararg flags, constants, nested functions, line information, local variables and upvalue names: same values, same order, nothing lost or added.",
     ["programs", "configurations"], "every function tree and every pair of formats that can represent the values",
     TESTS + "field values of compiled samples are small and regular, so a swapped, dropped or truncated field need not show.",
     ["function/mod.rs", "function/constant.rs", "function/local.rs", "serialization/stream.rs"],
     [("reading and writing of functions", "src/function/mod.rs")])
prop("C05", "Strings keep every byte",
     "Source names, string constants, local and upvalue names come out with the same bytes and length as they went in, whatever these bytes are: zeros, control characters, bytes that are not valid UTF-8. An absent string stays absent.",
     ["inputs"], "all string contents and lengths, in all places a chunk can hold a string, both versions, all size_t widths and byte orders",
     TESTS + "the strings in them are short ASCII identifiers.",
     ["serialization/stream.rs", "function/constant.rs"],
     [("string reading and writing", "src/serialization/stream.rs")])
prop("C06", "Number constants keep their value, or the conversion fails",
     "A number constant has the same value after conversion between 32- and 64-bit floats and 32- and 64-bit integers, except that a double may become the nearest 32-bit float. If the requested kind of number cannot hold the value, conversion fails with an error; if it can, it succeeds.",
     ["inputs", "configurations"], "every bit pattern of a number in every number format, to every number format",
     TESTS + "the numbers in them are a few small ones.",
     ["number.rs", "function/constant.rs", "serialization/stream.rs"],
     [("number conversion", "src/number.rs"), ("number writing", "src/serialization/stream.rs")])
prop("C07", "Lua 5.1 instructions are re-encoded exactly between operand layouts",
     "Every instruction of a Lua 5.1 chunk keeps its opcode and operands when it is rewritten to another operand layout, including whether an operand is a register or a constant and the sign of jump distances. An operand that does not fit the new layout, or an unknown opcode, is an error, never a different instruction.",
     ["inputs", "configurations"], "every instruction word and every pair of valid operand layouts",
     TESTS + "no test uses layouts other than the two default ones.",
     ["function/instruction/lua51.rs", "function/instruction/operand/layout.rs", "function/instruction/operand/mod.rs"],
     [("instruction decoding and encoding", "src/function/instruction/"), ("operand modes", "src/function/instruction/lua51.rs")])
prop("C08", "Cut or extended input is rejected as such",
     "A chunk from which any number of bytes is missing at the end is rejected as too short (or as lacking a signature if even that is cut). A complete chunk followed by any further bytes is rejected as too long, and without any it is accepted.",
     ["inputs", "crash_points"], "every cut position of every valid chunk, any trailing bytes",
     TESTS + "two tests cut or extend one input each at one place.",
     ["serialization/stream.rs", "lib.rs"],
     [("bounds checks of every read", "src/serialization/stream.rs"), ("check for remaining input", "src/lib.rs")])
prop("C09", "Lua 5.0 input: everything but code survives conversion",
     "Converting a Lua 5.0 chunk keeps, in every function at every nesting level, the source name, first line, parameter and upvalue counts, constants, nested functions, line information, local variables and upvalue names: same values, same order. The parts are found at the places of the Lua 5.0 chunk layout.",
     ["programs", "configurations"], "every function tree with fixed parameters and every pair of formats",
     TESTS + "field values of compiled samples are small and regular.",
     ["function/mod.rs", "function/constant.rs", "function/local.rs"],
     [("reading of Lua 5.0 functions", "src/function/mod.rs")])
prop("C10", "Conversion is stable: identity, idempotence, detours",
     "Input that already is Lua 5.1 in the requested format is returned unchanged, whatever it holds. Converting a result again to the same format changes nothing, and converting over an intermediate format gives the same bytes as converting directly.",
     ["inputs", "histories"], "every chunk and every sequence of formats that can represent its values",
     TESTS + "each test converts once.",
     ["lib.rs", "format/mod.rs", "function/mod.rs"],
     [("the shortcut for input that already has the format", "src/lib.rs")])
prop("C11", "Lua 5.0 instructions become Lua 5.1 instructions of the same meaning",
     "Every Lua 5.0 instruction that Lua 5.1 also has (moves, loads, globals, tables, arithmetic, comparison, calls, returns, closures) comes out with the opcode of the same meaning and the same registers, constants, upvalues and counts. An operand that named a constant names the same constant afterwards, one that named a register the same register, whatever its index.",
     ["inputs"], "every operand value of every Lua 5.0 opcode",
     TESTS + "the boundary at which Lua 5.0 splits registers and constants (250) and high operand values do not occur in them.",
     ["function/instruction/lua50.rs", "function/instruction/operand/mod.rs", "function/upcast.rs"],
     [("constant or register decision", "src/function/instruction/operand/mod.rs"), ("opcode mapping", "src/function/upcast.rs")])
prop("C12", "Lua 5.0 input: jumps still lead to the same instructions",
     "After conversion of a Lua 5.0 function, every jump, conditional skip and loop leads to the instruction that its original target became, wherever instructions had to be inserted or removed between, before or at the target. Executed from the start, the converted function performs the same actions in the same order for every outcome of its conditions.",
     ["programs", "schedules"], "every placement and nesting of jumps, conditions and loops, every outcome of every condition",
     TESTS + "a wrong distance only shows for a jump that crosses a rewritten place in the right direction.",
     ["function/builder.rs", "function/upcast.rs"],
     [("index mapping for inserted instructions", "src/function/builder.rs")],
     [("instruction positions", "where each original instruction ends up", "src/function/builder.rs")])
prop("C13", "Lua 5.0 input: numeric for loops run the same iterations",
     "A numeric for loop compiled by Lua 5.0 runs its body, after conversion, for the same values of the loop variable in the same order, and leaves the same registers behind for the code after it. This holds for any start, limit and step, including loops that do not run at all, and for nested loops and loops with jumps out of the body.",
     ["programs", "inputs"], "every start, limit and step; every nesting and position of loops",
     TESTS + "loops are compared as instruction lists only, and none is executed.",
     ["function/upcast.rs", "function/builder.rs"],
     [("rewriting of FORLOOP with an inserted FORPREP", "src/function/upcast.rs")])
prop("C14", "Lua 5.0 input: generic for loops run the same iterations",
     "A generic for loop compiled by Lua 5.0 makes, after conversion, the same iterator calls and runs its body with the same values, for any number of loop variables and any iterator results. A loop over a plain table, which Lua 5.0 supports, iterates it as before.",
     ["programs", "inputs"], "every number of loop variables, every sequence of iterator results, both kinds of loop",
     TESTS + "loops are compared as instruction lists only, and none is executed.",
     ["function/upcast.rs", "function/builder.rs"],
     [("rewriting of TFORLOOP and TFORPREP", "src/function/upcast.rs")])
prop("C15", "Table constructors build the same table for any page size",
     "A table constructor yields, after conversion, a table with the same element at every index, whatever the number of elements and whatever number of elements per store the input and the output settings state. This holds for constructors that end in a call with any number of results, for both versions.",
     ["programs", "configurations"], "every number of elements around page boundaries, every pair of page sizes, every number of results of a final call",
     TESTS + "the default page sizes 32 and 50 need long constructors to show a difference; only a few lengths occur.",
     ["function/upcast.rs", "function/convert.rs", "function/builder.rs"],
     [("repaging of table stores", "src/function/convert.rs and src/function/upcast.rs")])
prop("C16", "The encoding of the input does not influence the result",
     "Two chunks that hold the same program in different byte orders and widths are converted to the same bytes, or rejected with the same error.",
     ["programs", "configurations"], "every program and every pair of input encodings of either version",
     TESTS + "each program occurs in one encoding.",
     ["serialization/stream.rs", "function/mod.rs", "lib.rs"],
     [("reading by the input format", "src/serialization/stream.rs")])
prop("C17", "Lua 5.0 variadic functions still receive their arguments",
     "A variadic Lua 5.0 function finds after conversion its extra arguments, all of them and in order, in the table it expects them in. Everything else in the function works as without the added code: jumps to its start, lines, parameters.",
     ["programs", "inputs"], "every number of parameters and extra arguments, every function body within the bounds",
     TESTS + "the prologue is compared as an instruction list for one function.",
     ["function/upcast.rs", "function/mod.rs"],
     [("inserted argument collection", "src/function/upcast.rs")])
prop("C18", "The stated stack size covers every register used, or conversion fails",
     "Every register that a converted Lua 5.0 function reads or writes lies below the stack size its header states, also where conversion needs additional registers. If no stack of the permitted size is large enough, conversion fails with an error that says so; it does not fail otherwise.",
     ["programs"], "every instruction with every operand value, every stated stack size",
     TESTS + "functions that use nearly all registers do not occur.",
     ["function/builder.rs", "function/mod.rs", "function/upcast.rs"],
     [("maximum stack size tracking", "src/function/builder.rs")])
prop("C19", "Line information stays with its instructions",
     "After conversion every action of a Lua 5.0 function is attributed to the line it had before, also behind and between inserted instructions. There is one line entry per instruction, or none at all if the input has none.",
     ["programs"], "every placement of instructions that get expanded or removed, any line numbers",
     TESTS + "line information is compared for few instruction lists.",
     ["function/builder.rs", "function/mod.rs"],
     [("line information kept next to the instructions", "src/function/builder.rs")])
prop("C20", "Constants keep their place; added names cannot collide",
     "The constants of a Lua 5.0 function keep index, type and value, and anything conversion adds comes after them. A global name that conversion makes up for its own use differs from every string constant of the function, so that no global variable of the program is read or overwritten by it.",
     ["programs"], "every constant list, including names that look like the made-up ones; every number of made-up names",
     TESTS + "no test has a constant that resembles a made-up name.",
     ["function/builder.rs", "function/upcast.rs"],
     [("choice of temporary global names", "src/function/builder.rs")])
prop("C21", "Converted functions pass Lua 5.1's bytecode rules",
     "From a well-formed Lua 5.0 function, conversion makes a well-formed Lua 5.1 function: jumps stay inside it, conditional instructions are followed by a jump, constants, upvalues and nested functions that instructions name exist, and it ends with a return.",
     ["programs"], "every well-formed function within the bounds",
     TESTS + "nothing checks the output against Lua's own rules.",
     ["function/upcast.rs", "function/builder.rs", "function/instruction/lua50.rs"],
     [("instruction rewriting", "src/function/upcast.rs")])
prop("C22", "Exactly the valid operand layouts can be made, and none is cut",
     "A specification of an operand layout is accepted exactly if it names every operand once, each within its size limits, with B and C next to each other and not more bits than an instruction can have; anything else is an error. An instruction that has more bits than the output's instructions is an error too, never cut.",
     ["configurations"], "every order and every 64-bit size of the operands",
     TESTS + "a few specifications are tried.",
     ["function/instruction/operand/layout.rs", "function/mod.rs", "serialization/stream.rs"],
     [("layout construction", "src/function/instruction/operand/layout.rs")])
prop("C23", "Debug information does not influence the code",
     "A Lua 5.0 function converts to the same instructions, constants and stack size whether or not it carries line information, local variable and upvalue names. Stripped functions stay stripped.",
     ["programs"], "every function within the bounds, with and without each kind of debug information",
     TESTS + "the test files contain few stripped chunks.",
     ["function/mod.rs", "function/builder.rs"],
     [("instructions paired with lines", "src/function/mod.rs")])

prop("C24", "Lua 5.1 input: repaged tables leave the rest of a function alone",
     "A Lua 5.1 function whose table constructors are rewritten for another number of fields per flush does what it did before: jumps, loops and skips lead to the same instructions, every action has its line, and the result obeys Lua 5.1's bytecode rules and its stated stack size. Without a change of that number, instructions only change their encoding.",
     ["programs", "configurations"], "every Lua 5.1 program within the bounds, every outcome of its conditions, each pair of table page sizes",
     TESTS + "they repage constructors in straight-line code; no test has a jump over one, a loop around one, or lines in it.",
     ["function/convert.rs", "function/builder.rs", "function/instruction/lua51.rs"],
     [("convert: instructions between stores", "src/function/convert.rs"), ("set_list", "src/function/builder.rs")])

NOT = {}
NA_DEFAULT = "not claimed: the check of this property is still being built"


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p["line"]) + "\n")
    checks, na = [], []
    for p in P:
        i = p["line"]["id"]
        if i in props.PROPS:
            q = props.PROPS[i]
            note = "Decided for every value within these bounds: %s. Outside: %s. Trusted: the engine's semantics of LLVM IR (sampled paths are replayed natively), Z3 (sampled queries go to cvc5 and a newer Z3), rustc." % (q["bounds"], q.get("outside", "nothing else stated"))
            checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i, technique=TECH, level="model_checking", level_note=note))
        else:
            na.append(dict(property=i, reason=NOT.get(i, NA_DEFAULT)))
    m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na)
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
