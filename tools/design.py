#!/usr/bin/env python3
"""Write DESIGN.md out of its parts, the list of harnesses, and the planted bugs."""
import glob, json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOW = {
 'C01': 'Every reader of a table is given arbitrary bytes of every length within the bounds, and what it accepts is looked up with arbitrary identifiers. The oracle is the absence of panics, overflows, invalid memory accesses, and endless paths, each of which is a query at each place where it could happen.',
 'C02': 'A font set with everything in it (both kinds of fonts) is written by the harness, and one operand at a time is replaced by any 32-bit integer or a real number, the number of operands of any operator is changed, a byte is replaced by any byte, or the tail is cut. Oracle: as in C01.',
 'C03': 'All programs of a few bytes, with arbitrary subroutines, and every operator with operands that are any fixed-point numbers, any integers, or infinities and NaN made by computations. Oracle: as in C01.',
 'C04': 'Chains of calls of every depth around the limit, recursion through any pair of subroutines, and long programs. Oracle: ten levels work, eleven are an error, recursion ends with an error within the step limit (30 s natively), and long programs give their operation. The depth of the native call stack is checked by the replayer, which runs with a 2 MB stack, and by the frame limit of the engine.',
 'C05': 'Differential: an independent decoder written from section 4 of the specification (Table 3) against `Number::read`, on all byte strings.',
 'C06': 'Differential: for shapes with symbolic digits that need a single rounding (mantissa below 2^24, power of ten within 10^10), the expected value is one IEEE division or multiplication, decided in the theory of floating point; `str::parse::<f32>` of the standard library is executed as it is. Around midpoints of pairs of single-precision numbers, the expectation is exact: the lower, the even, or the upper neighbour by the digits after the midpoint, which rules out rounding twice. Digits there are enumerated by the solver, since the big-decimal path of the standard library is out of its reach.',
 'C07': 'Differential against the layout of the specification, on all bytes.',
 'C08': 'Differential: an independent reader of indices decides which of the arbitrary byte strings are well-formed and where items begin and end; items are compared by position and contents. Written indices (all offset sizes, many items, items of more than 65536 bytes) are read back, followed by other data.',
 'C09': 'The harness writes operators with operands of all forms and compares what is read with what was written; codes of operators are compared with the tables of the specification for all 65536 codes.',
 'C10': 'Defaults are compared with tables 9, 10, and 23 of the specification, for all operators; explicit operands, including none, override them for all values.',
 'C11': 'Standard strings are compared with Appendix A of the specification (typed in independently of the crate) for all identifiers below 391; strings of fonts by position, with the replacement of invalid UTF-8 written anew.',
 'C12': 'All integers and all bit patterns of reals against 0 <= value <= 65535.',
 'C13': 'Differential: an independent reader of the three formats decides on arbitrary bytes and any number of glyphs.',
 'C14': 'Compared with Appendix C of the specification for all glyph identifiers.',
 'C15': 'Differential on arbitrary bytes for formats 0 and 1. The supplement is a known finding.',
 'C16': 'Compared with Appendix B of the specification for all codes.',
 'C17': 'Differential on arbitrary bytes, any number of glyphs, and long encodings.',
 'C18': 'The harness writes font sets from a plan (contents symbolic; order of parts, gaps, padding of the header, place in the data, number of fonts and glyphs vary) and compares every part of what is read with the plan.',
 'C19': 'As C18 for fonts with ROS: registry, ordering, supplement with any values, selectors of both formats, one or two font dictionaries, mixed sets, and wrong numbers of operands.',
 'C20': 'Differential: an independent decoder of operands; the operands of an operation are compared in order. Fixed-point numbers are compared as floats.',
 'C21': 'All 65536 codes against Appendix A of the Type 2 specification, both in `Operator::from` and in the dispatch of a program.',
 'C22': 'Every operator after any number of operands within the bounds against the patterns of the specification (section 4.1), counted by formulas that are independent of the crate; the operands have to be the last ones on the stack, in order, and the next operation has to start with an empty stack.',
 'C23': 'The width expected by section 3.1: the first operand, if the number of operands of the first stack-clearing operator has one in excess. Every operator that can come first, followed by others with and without operands in excess.',
 'C24': 'Programs with any number of stems within the bounds, in any distribution between operators, and arbitrary mask bytes; the operation that follows the mask has to be given.',
 'C25': 'An interpreter of the operators on a stack of numbers, written anew from section 4.4, on every sequence of up to three operators; values are decided in the theory of floating point. Roll and index against arithmetic modulo the span, for all 16-bit arguments.',
 'C26': 'Metamorphic: a program with calls against the program with the bodies in place (operations, width, failure), for generated bodies; separately, the position selected for any operand and for numbers of subroutines around the boundaries of the bias.',
 'C27': 'Programs with the end operator at different levels followed by arbitrary bytes, and programs that just stop; the next operation is asked for three times.',
 'C28': 'The reader fails at any one of its calls, in any of 16 ways, or gives few bytes at a time, or gets interrupted; the error has to come out as it is, or the result has to be the same as without.',
 'C29': 'Names of arbitrary bytes against an independent decoder of UTF-8; for valid names equality, for invalid ones the number and places of replacement characters.',
 'C30': 'The sum of what is allocated on a path is compared with a limit for tiny inputs whose fields can be anything; sizes of allocations are symbolic, so that the solver looks for a field that makes them large.',
 'C31': 'Each table is read from its bytes alone and from the same symbolic bytes placed after and before other symbolic bytes, in sequences, and out of the parts of a font set with symbolic gaps; everything read and the advance of the reader are compared.',
 'C32': 'Font sets are written by the independent writer of C18 with glyphs that call known subroutines with symbolic operands; the glyphs read back are executed with the subroutines read back, and the operations are compared with those the writer put in. Arbitrary bytes of a glyph are compared with executing the same bytes outside of any font.',
 'C33': 'Two executions are compared: of a program and of the same program followed by symbolic code, of programs alone and in alternation, of a program before and after another one. Both sides are the real code, so that no model is involved.',
}
COST = {}
for path in glob.glob(os.path.join(ROOT, 'evidence', '*.json')):
    data = json.load(open(path))
    COST[os.path.basename(path)[:-5]] = data
entries = json.loads(subprocess.check_output([os.path.join(ROOT, '.build', 'replay', 'debug', 'replay'), 'list']))
out = [open(os.path.join(ROOT, 'tools', 'design_head.md')).read().rstrip(), '', '## The properties', '']
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)
    id = p['id']
    out += [f'### {id}. {p["title"]}', '', HOW[id], '', 'Why tests cannot: ' + p['why_tests_cant'], '', 'Bounds (everything outside is outside of the claim):', '']
    for e in entries:
        if e['property'] == id:
            tier = {'Both': '', 'Quick': ' (quick only)', 'Thorough': ' (thorough only)'}[e['tier']]
            out.append(f'* `{e["name"]}`{tier}: {e["bound"]}')
    out.append('')
out.append(open(os.path.join(ROOT, 'tools', 'design_tail.md')).read().rstrip())
out += ['', '## Planted bugs', '', 'Each is in `seeded/`: a patch, a demonstration, and what it needs. All of them pass the stable tests. The column on the right is',
        'what the check of the property says when it is applied.', '', '| bug | property | needs | caught |', '|---|---|---|---|']
caught = json.load(open(os.path.join(ROOT, 'tools', 'caught.json')))
for path in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    name = os.path.basename(os.path.dirname(path))
    meta = json.load(open(path))
    out.append(f'| {name} | {meta["property"]} | {meta["needs"]} | {caught.get(name, "?")} |')
text = '\n'.join(out) + '\n'
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(text)
