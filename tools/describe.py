import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if observe: a['observe_at']=observe
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    a['hook_needed']=None
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})
C='src/compact1/'
T='src/type2/'
p('C01','Reading any table from any bytes never panics',
 'Reading any table or value of the format (header, index of any kind, dictionary, number, offset, character set, encoding, glyph-to-dictionary encoding) from arbitrary, possibly truncated bytes, with any parameter it takes, and then looking things up in what was read, ends with a value or an error. It never panics, overflows, reads out of bounds, or runs forever.',
 ['inputs'],'all byte strings, parameters, and identifiers looked up',
 'The tests read well-formed fonts and a handful of hand-written snippets; no test feeds malformed or truncated data, of which there are too many to sample.',
 [C+'index/mod.rs',C+'operation.rs',C+'number.rs',C+'character_set.rs',C+'encoding.rs',C+'font_set/character_id_keyed.rs',C+'offset.rs','src/macros.rs' if False else 'src/lib.rs'],
 [('bounds and subtractions in reading indices',C+'index/mod.rs Index::read'),('errors in place of assertions in formats',C+'character_set.rs, '+C+'font_set/character_id_keyed.rs'),('end of data ends dictionaries',C+'operation.rs Operations::read')],
 ['postscript::tape::Read::take, take_given','CharacterSet::get, Encoding::get, Strings::get'])
p('C02','Reading a font set never panics, whatever its dictionaries say',
 'Reading a font set whose dictionaries have any values of any type as offsets, sizes, identifiers, and types, or that is cut short or has a byte corrupted, ends with a font set or an error. Negative and excessive offsets and sizes are errors; they never wrap around, panic, or lead outside of the data.',
 ['inputs'],'all 32-bit values of every operand that is an offset, a size, or an identifier; all positions of truncation and all values of a corrupted byte',
 'The tests only open two well-formed fonts, in which every offset is in place.',
 [C+'font_set/mod.rs',C+'font_set/character_id_keyed.rs',C+'font_set/character_name_keyed.rs'],
 [('jumps to offsets',C+'font_set/mod.rs FontSet::read'),('size and offset of Private, offset of Subrs',C+'font_set/character_name_keyed.rs Record::read, '+C+'font_set/character_id_keyed.rs RecordInner::read'),('conversion of numbers to offsets','src/lib.rs and the macros it includes')],
 ['FontSet via Read::take'])
p('C03','Executing any charstring never panics',
 'Executing a charstring made of arbitrary bytes with arbitrary local and global subroutines, asking for operations one by one, gives operations, an end, or an error at each step. It never panics, overflows, or accesses operands or subroutines that are not there, even when arithmetic operators produce infinities or not-a-number.',
 ['programs'],'all byte strings as programs and subroutines within the bounds, all operand values, all numbers of operands on the stack',
 'The tests run well-formed glyphs of two fonts and one hand-written program; ill-formed programs are not tried.',
 [T+'program.rs',T+'number.rs',T+'operation.rs'],
 [('checks of the stack before use',T+'program.rs pop!, read!, clear!'),('checks of the address of a subroutine',T+'program.rs CallSubr, CallGSubr'),('bounds of roll and index',T+'program.rs Roll, Index')],
 ['type2::Program::next'])
p('C04','Charstrings end: nesting of calls is bounded and long programs work',
 'Subroutine calls can be nested up to ten deep, as the format prescribes, and deeper nesting, including endless recursion in any shape, is an error and neither exhausts the call stack or memory nor runs forever. The length of a program or the number of consecutive calls is not limited by the nesting and does not consume the call stack.',
 ['programs'],'all chains of calls up to and beyond the limit through local and global subroutines, all call graphs among a few subroutines, long programs without operations',
 'Fonts at hand nest calls one or two deep, and no test has recursion or a long sequence of operators between operations.',
 [T+'program.rs'],
 [('depth of the routine and its limit',T+'program.rs Routine::depth, CallSubr'),('iteration in place of recursion',T+'program.rs Program::next, step')],
 ['type2::Program::next'])
p('C05','Dictionary integers decode to the values the format defines',
 'An integer in a dictionary in any of its five forms (one byte from 32 to 246, two bytes with 247 to 250 or 251 to 254, 28 with two bytes, 29 with four bytes) decodes to the value the format assigns, consuming exactly its bytes. Reserved first bytes and truncated integers are errors.',
 ['inputs'],'all byte strings of up to five bytes and all concatenations of several integers',
 'The unit test reads nine values out of more than four billion encodings.',
 [C+'number.rs'],[('integer arms of Number::read',C+'number.rs Number::read')],['compact1::Number via Read::take'])
p('C06','Dictionary real numbers decode to the nearest single-precision value',
 'A real number written in nibbles (digits, a decimal point, exponents E and E-, a minus sign, an end nibble) decodes to the single-precision number nearest to the decimal value it spells, consuming the bytes up to and including the one with the end nibble. The reserved nibble, an empty number, and one without an end are errors.',
 ['inputs'],'all digits for each of a number of shapes with up to 4 digits and an exponent of up to 2 digits; all nibbles for errors',
 'The unit test decodes two real numbers.',
 [C+'number.rs'],[('nibbles to text to a number',C+'number.rs parse')],['compact1::Number via Read::take'])
p('C07','Headers and offsets are read in the layout of the format',
 'A header is four bytes: major, minor, header size, offset size, in this order. An offset of size one to four is that many bytes in big-endian order, consumes exactly these bytes, and has its value unchanged; any other size is an error, and offsets order as their values.',
 ['inputs'],'all bytes and all offset sizes',
 'The unit test reads one three-byte offset; the fonts use the same header and one or two sizes.',
 [C+'header.rs',C+'offset.rs'],[('composition of offsets',C+'offset.rs Offset::read'),('fields of the header',C+'header.rs')],['compact1::Header, compact1::Offset via Read'])
p('C08','Indices split data exactly by their offsets and reject bad ones',
 'An index gives as many items as it declares, item i being the bytes between offsets i and i+1 counted from the byte before the data, with nothing lost, shared, or added, and leaves the reader right after the last item; an empty index is just its two-byte count. An index whose first offset is not one, whose offsets decrease, whose offset size is not one to four, or whose data are missing is an error, and so are glyph programs of a type other than two.',
 ['inputs'],'all byte strings within the bounds, all offset sizes, counts, and item lengths',
 'The fonts at hand are well-formed, so that rejection and the boundaries (empty items, wide offsets, truncated data) are never exercised.',
 [C+'index/mod.rs',C+'index/character_strings.rs',C+'index/dictionaries.rs',C+'index/subroutines.rs'],
 [('offsets and items',C+'index/mod.rs Index::read'),('type of glyph programs',C+'index/character_strings.rs CharacterStrings::read')],
 ['compact1::Index and compact1::index::* via Read'])
p('C09','Dictionaries map each operator to the operands before it',
 'Reading a dictionary associates every operator, of one byte or of two bytes after 12, with exactly the numbers that precede it since the previous operator, in their order and of any count; when an operator repeats, the last occurrence wins. Operators that the format does not define and reserved bytes make the dictionary an error.',
 ['inputs'],'all operators, numbers of operands, operand encodings and values, and sequences of operations within the bounds',
 'The tests look at a few entries of two fonts.',
 [C+'operation.rs'],[('operands then operator',C+'operation.rs Operation::read'),('operator codes',C+'operation.rs operator!'),('collection',C+'operation.rs Operations::read')],
 ['compact1::Operations via Read, Operations::get, Operator::from'])
p('C10','Absent dictionary entries take the defaults of the format',
 'Asking a dictionary for an operator that it does not have gives the default the format defines for it, or nothing where the format defines none. An entry that is present is always given in place of the default, even when it is equal to zero or has no operands.',
 ['inputs'],'all operators, present or absent, with any operands',
 'The tests read one or two defaults.',
 [C+'operation.rs'],[('table of defaults',C+'operation.rs operator! default'),('fallback',C+'operation.rs Operations::get')],['Operations::get, get_single, get_double'])
p('C11','String identifiers resolve to standard strings, then to the font\'s own',
 'A string identifier below 391 resolves to the standard string the format lists under it, whatever strings the font has. Identifier 391+i resolves to the i-th string of the font, with invalid UTF-8 replaced, and identifiers beyond are absent.',
 ['inputs'],'all 65536 identifiers, any number and contents of strings',
 'A unit test counts standard strings without comparing them, and the others look up a few.',
 [C+'index/strings.rs'],[('lookup',C+'index/strings.rs Strings::get'),('the table of standard strings',C+'index/strings.rs get_standard_string')],['compact1::index::Strings::get'])
p('C12','Numbers become string identifiers only when they fit',
 'A number converts to a string identifier if and only if it is an integer from 0 to 65535, in which case the identifier is equal to it. All other integers and all real numbers are errors.',
 ['inputs'],'all 32-bit integers and all real numbers','No test covers the conversion out of range.',
 [C+'mod.rs'],[('conversion',C+'mod.rs TryFrom<Number> for StringID')],['StringID::try_from(Number)'])
p('C13','Character sets of formats 0, 1, and 2 are read in full and checked',
 'A character set is read with as many identifiers (format 0: one fewer than glyphs) or as many ranges (formats 1 and 2: as needed for the ranges to cover all glyphs but the first) as the number of glyphs requires, each with its identifier and number left as written, and not a byte more. Ranges that cover more glyphs than there are, truncated data, and unknown formats are errors.',
 ['inputs'],'all byte strings within the bounds and all numbers of glyphs',
 'The fonts at hand have one character set each, in which all adds up.',
 [C+'character_set.rs'],[('counting glyphs of ranges',C+'character_set.rs CharacterSet1::read, CharacterSet2::read'),('format 0',C+'character_set.rs CharacterSet0::read'),('choice of the format',C+'character_set.rs CharacterSet::read')],
 ['compact1::CharacterSet via Read::take_given'])
p('C14','Predefined character sets name each glyph as the format lists',
 'For every glyph identifier other than zero, the ISOAdobe, Expert, and ExpertSubset character sets give the name that the format lists at this position of the set, and nothing past its end.',
 ['inputs'],'all 65536 glyph identifiers','No test covers the predefined sets beyond a few glyphs.',
 [C+'character_set.rs'],[('tables',C+'character_set.rs get_iso_adobe, get_expert, get_expert_subset')],['compact1::CharacterSet::get'])
p('C15','Encodings of formats 0 and 1 and their supplements are read as written',
 'An encoding of format 0 is a count and that many codes; an encoding of format 1 is a count and that many ranges of a first code and a number left; all are kept in order and exactly these bytes are consumed. With the high bit of the format set, the same is followed by a count and that many supplements of a code and a glyph; other formats and truncated data are errors.',
 ['inputs'],'all byte strings within the bounds, including counts of 255','The fonts at hand use predefined encodings.',
 [C+'encoding.rs'],[('choice of the format',C+'encoding.rs Encoding::read'),('tables',C+'encoding.rs Encoding0, Encoding1, EncodingSupplemental')],['compact1::Encoding via Read::take'])
p('C16','Built-in encodings give the string identifier of each code',
 'For every code from 0 to 255, the Standard and Expert encodings give the string identifier the format lists for it, and nothing is given beyond 255.',
 ['inputs'],'all 65536 arguments','No test covers the tables.',
 [C+'encoding.rs'],[('tables',C+'encoding.rs get_standard, get_expert')],['compact1::Encoding::get'])
p('C17','Glyph-to-dictionary encodings are read in full in formats 0 and 3',
 'Format 0 gives one dictionary identifier per glyph; format 3 gives as many ranges of a first glyph and a dictionary as declared, followed by the total number of glyphs, as written and in order, with exactly these bytes consumed. Other formats and truncated data are errors.',
 ['inputs'],'all byte strings and numbers of glyphs within the bounds','The tests that read such encodings need a font that is not there.',
 [C+'font_set/character_id_keyed.rs'],[('formats',C+'font_set/character_id_keyed.rs Encoding::read, Encoding0::read, Encoding3')],['character_id_keyed::Encoding via Read::take_given'])
p('C18','Font sets follow their offsets from the start of the table',
 'Every part of a font set is found where the dictionary of its font points: glyph programs, character set, encoding, and private dictionary relative to the beginning of the font set wherever this is in the data, and local subroutines relative to the private dictionary; the first index follows the header by the size it declares. Each of several fonts gets its own parts, identifiers 0 to 2 of character sets and 0 to 1 of encodings select predefined ones, fonts without local subroutines get none, and counting fonts gives the number of names.',
 ['inputs','configurations'],'all placements of the font set in the data, sizes of the header, orders of the parts, gaps, and numbers of fonts within the bounds',
 'Both fonts at hand are of one layout with a single font and a header of four bytes.',
 [C+'font_set/mod.rs',C+'font_set/character_name_keyed.rs'],[('jumps',C+'font_set/mod.rs FontSet::read, count'),('local subroutines',C+'font_set/character_name_keyed.rs Record::read')],['FontSet via Read::take, FontSet::count'])
p('C19','Fonts are keyed by character IDs if and only if they have a ROS entry',
 'A font whose top dictionary has a registry-ordering-supplement entry, wherever it is in the dictionary, is read as keyed by character IDs with that registry, ordering, and supplement, with the glyph-to-dictionary encoding and, for each font dictionary of its array in order, its own private dictionary and local subroutines; any other font is keyed by names. Fonts of both kinds can be mixed, and malformed entries are errors.',
 ['inputs','configurations'],'all registries, orderings, supplements, numbers of font dictionaries, and mixes of fonts within the bounds',
 'The test of such fonts needs a font that is not there.',
 [C+'font_set/mod.rs',C+'font_set/character_id_keyed.rs'],[('choice of the kind',C+'font_set/mod.rs Record::read'),('parts of a font',C+'font_set/character_id_keyed.rs Record::read, RecordInner::read')],['FontSet via Read::take'])
p('C20','Charstring operands decode to the values the format defines',
 'A charstring number in any of its forms (one byte from 32 to 246, two bytes with 247 to 254, 28 with two bytes, 255 with four bytes of 16.16 fixed point) is the value the format assigns, to single precision. A sequence of numbers ends up on the stack in its order, and a truncated number is an error.',
 ['inputs'],'all encodings and values, sequences of several numbers','A unit test decodes one fixed-point number, and glyphs sample a few integers.',
 [T+'number.rs',T+'program.rs'],[('fixed point and integers',T+'number.rs read'),('collection of operands',T+'program.rs step')],['operands of type2::Program::next'])
p('C21','Charstring operators have the codes of the format; reserved ones are errors',
 'Every operator is recognised by the code, one byte or two bytes after 12, that the format assigns to it, and operations given by a program carry the operator that was in the code. All codes that the format reserves are errors.',
 ['inputs'],'all 65536 codes','The glyphs of the fonts at hand use a dozen operators.',
 [T+'operation.rs',T+'program.rs'],[('codes',T+'operation.rs Operator::from'),('one or two bytes',T+'program.rs step')],['type2::Operator::from, type2::Program::next'])
p('C22','Drawing and hint operators take operands in the numbers the format allows',
 'A path or hint operator given by a program has its operands in order and in one of the numbers the format allows for this operator, the longest that is on the stack, and leaves the stack empty. It is an error if the stack has fewer operands than the operator needs.',
 ['programs'],'all path and hint operators with any number of operands on the stack from none to 48 and any values, alone and after other operations',
 'Glyphs of real fonts always have operands in good order and rarely more than a dozen.',
 [T+'program.rs'],[('matching of the stack against shapes',T+'program.rs clear!')],['type2::Program::next'])
p('C23','The width comes from the excess operand of the first operation only',
 'The width of a glyph is the one operand in excess of what the first stack-clearing operator (a hint, mask, move, or end) takes, the first on the stack, and it is absent if there is no such operand. Later operations never set, change, or remove it.',
 ['programs'],'all first operators with and without an excess operand, followed by any operators with or without excess ones',
 'A test compares widths of a few glyphs in which nothing unusual happens.',
 [T+'program.rs'],[('first operation',T+'program.rs cleared, width'),('end operator',T+'program.rs EndChar')],['type2::Program::width'])
p('C24','Hint masks take as many bytes as the stems declared so far need',
 'A hint or counter mask is followed by one bit per stem declared so far, rounded up to whole bytes, where stems are counted over all stem operators, including those implied by operands right before a mask; code resumes right after these bytes. Bytes of masks are never executed, and a truncated mask is an error.',
 ['programs'],'all combinations of stem operators and masks with up to 96 stems and any bytes in masks',
 'The glyphs tested have few stems, mostly within a single byte of mask.',
 [T+'program.rs'],[('count of stems',T+'program.rs stems, HStem, HintMask')],['type2::Program::next'])
p('C25','Arithmetic, conditional, and stack operators compute as the format says',
 'Arithmetic, logical, conditional, and stack operators (abs, add, sub, div, neg, mul, sqrt, drop, exch, index, roll, dup, and, or, not, eq, ifelse) replace their operands on the stack by the results the format defines and leave the rest as it is. Index with a negative argument duplicates the top, roll rotates by any shift in either direction, and an operator without enough operands is an error.',
 ['programs'],'all such operators on all operand values, alone and in sequences; all spans and shifts of roll',
 'Real glyphs hardly use these operators, and no test has them.',
 [T+'program.rs'],[('operators',T+'program.rs step'),('rotation',T+'program.rs Roll')],['operands of type2::Program::next'])
p('C26','Calling a subroutine is the same as having its code in place',
 'A call selects the local or global subroutine whose position is the operand plus the bias (107, 1131, or 32768 for fewer than 1240, fewer than 33900, or more subroutines), and the operations, width, and errors are those of the program with the body of the subroutine in place of the call. Operands on the stack and stems carry over in both directions; calls of missing subroutines and returns without a call are errors.',
 ['programs'],'all bodies, contexts, and nestings within the bounds; numbers of subroutines around the boundaries of the bias; all values of the operand',
 'The fonts at hand have numbers of subroutines far from the boundaries, and errors do not happen in them.',
 [T+'program.rs'],[('bias',T+'program.rs bias'),('call and return',T+'program.rs CallSubr, Return')],['type2::Program::next, width'])
p('C27','Nothing follows the end of a charstring',
 'After the end operator, in the program or in a subroutine, or once the code is over, asking for the next operation gives none, any number of times, whatever bytes follow in the program. Operations before the end are all given.',
 ['programs','histories'],'all bytes after the end, any number of further requests',
 'The tests stop at the first absence of an operation.',
 [T+'program.rs'],[('end operator',T+'program.rs EndChar, Routine::finish')],['type2::Program::next'])
p('C28','Faults of the reader are reported, and short reads change nothing',
 'A failure of any read or seek of the underlying reader makes reading a table or a font set fail with that error; it is never taken for data, an end, or a success. Results do not depend on how many bytes the reader gives at a time or whether its reads get interrupted.',
 ['fault_sequences','inputs'],'a failure at any of the calls of the reader, all contents within the bounds, reads of 1 to 3 bytes with interruptions',
 'The tests read files and memory, which neither fail nor give less than asked.',
 [C+'operation.rs',C+'font_set/mod.rs','src/lib.rs'],[('propagation of errors',C+'operation.rs Operations::read'),('reading through the typeface crate','src/lib.rs')],['Read::take over any std::io::Read + Seek'])
p('C29','Names of fonts become text without loss',
 'Converting the names of a font set gives as many strings as there are names, in order, each equal to the name when it is valid UTF-8. Names that are not have the replacement character in place of what is invalid, and no name makes the conversion fail.',
 ['inputs'],'all names within the bounds','The tests convert one ASCII name.',
 [C+'index/names.rs'],[('conversion',C+'index/names.rs TryFrom<Names> for Vec<String>')],['Vec::<String>::try_from(Names)'])
p('C30','Reading and executing take memory for what is there, not for what is claimed',
 'The memory asked for while reading a table or a font set, and while executing a charstring, is bounded by a multiple of the data that are present and a constant due to 16-bit counts. An offset, a size, or an identifier in the data, however large it is, never causes a large allocation on its own; when the data it refers to are missing, there is an error instead.',
 ['inputs'],'all bytes of an index of any kind with any offset size, all sizes and offsets of private dictionaries, all bytes of small tables and programs',
 'No test has a size larger than its data, and allocating gigabytes succeeds silently on most machines.',
 [C+'index/mod.rs',C+'mod.rs',C+'font_set/character_name_keyed.rs',C+'font_set/character_id_keyed.rs',T+'program.rs'],
 [('items of indices',C+'index/mod.rs Index::read'),('private dictionaries',C+'font_set/character_name_keyed.rs Record::read, '+C+'font_set/character_id_keyed.rs RecordInner::read'),('reading bytes as they come',C+'mod.rs read_bytes')],
 ['sizes asked of the global allocator'])
p('C31','Tables are read the same wherever they are and whatever surrounds them',
 'What is read from a table and how far the reader advances depend on the bytes of the table only: not on its position in the file, the bytes before or after it, or what was read earlier with the same or another reader. A font set reads the same anywhere in a file, with all of its offsets counted from its own start.',
 ['inputs','histories'],'all small tables of every kind at any of a number of positions with any bytes around, in sequences, and font sets with any bytes before, between, and after their parts',
 'The tests read each table where it is in one file.',
 [C+'font_set/mod.rs',C+'index/mod.rs',C+'mod.rs',C+'encoding.rs',C+'character_set.rs'],[('reading from a tape',C+'*.rs read'),('seeking',C+'font_set/mod.rs jump_take!')],['Read::take and Read::position for every table'])
p('C32','Glyphs of a font set are drawn by their own programs and subroutines',
 'Executing the charstring that a font set gives for a glyph, with the global subroutines of the set and the local subroutines of the record (for fonts keyed by character ID, those of the dictionary that the selector assigns to the glyph), gives the operations that the bytes of that glyph and those subroutines in the file say, for each glyph of each font.',
 ['inputs'],'sets of up to 3 fonts of both kinds with all operands and with numbers of subroutines around the bounds of the bias',
 'A test counts the operations of glyphs of one font but has no other source for them.',
 [C+'font_set/mod.rs',C+'font_set/character_name_keyed.rs',C+'font_set/character_id_keyed.rs',C+'index/character_strings.rs',T+'program.rs'],
 [('order of fonts and glyphs',C+'font_set/mod.rs FontSet::read'),('subroutines of records',C+'font_set/character_id_keyed.rs Record::read'),('execution',T+'program.rs')],['FontSet, then type2::Program::next'])
p('C33','Operations depend only on the code executed before them',
 'Each operation that a program gives, and the width right after it, are the same whatever code follows, so that a truncated or damaged charstring gives all operations before the damage. Programs do not affect one another, whether or not they share subroutines and in whatever order they are asked, and executing a program again gives the same.',
 ['programs','histories'],'all short programs with any code following, in the program or in the caller; pairs of programs asked in turn',
 'The tests execute whole well-formed glyphs one after the other.',
 [T+'program.rs'],[('execution step by step',T+'program.rs step'),('state of a program',T+'program.rs Program')],['type2::Program::next, width'])
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
note={}
checks=[]
for x in P:
    checks.append({'property':x['id'],'quick_cmd':f"./check.py {x['id']} quick",'thorough_cmd':f"./check.py {x['id']} thorough",
     'technique':'symbolic execution of the LLVM IR of the real code with Z3, counterexamples replayed natively','level':'model_checking',
     'level_note':'Exhaustive within the bounds stated per harness (see the evidence and DESIGN.md), on the IR that rustc emits for the real code with overflow checks and debug assertions; trusts rustc, Z3, and the engine, which is cross-checked against native runs on sampled paths. Allocation never fails, and hash keys are fixed.'})
json.dump({'version':1,'setup_cmd':'./build_ir.sh','checks':checks,'not_applicable':[],'notes':'No hooks are needed: everything is public. C15 has a known finding (known_findings.json).'},open('/verif/MANIFEST.json','w'),indent=1)
