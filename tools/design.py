HEAD = '''# Design

What is decided, how, and what is not. `properties.jsonl` has the statements; `MANIFEST.json` the commands; both are written by
`tools/docs.py` from `rules/props.py` and `rules/registry.py`. Every check is `./check PROPERTY [quick|thorough]`.

## Approach

zserio is a compiler (Java) with three code generators and three runtime libraries. What users rely on is that the generated code
of C++, Java and Python implements the schema, and that the three runtimes implement the same encoding. The repository's own tests
cover the runtimes by sampled values and hardly touch the generators, whose output is only exercised in an integration project that
does not run here. Two kinds of static analysis decide the properties; nothing of zserio's generated code or runtimes is executed by a check.

### G rules: generated code against an independent model of the schema

1. The compiler is rebuilt from `/repo`'s current tree (`lib/build.py`, cached by content) and generates code for the corpus schemas in `corpus/`
   (most written by `tools/mkcorpus.py`, so that every kind of type meets every modifier in every container). The generated sources are the
   programs under analysis. Running the compiler only obtains them: an edit of a template or an emitter is seen through them.
2. The sources are resolved by real front ends into one small IR: javac's attributed tree (`tools/JavaIR.java`), clang's AST (`tools/cppir.cpp`,
   libclang C++), CPython's `ast` (`lib/pyir.py`). Names are resolved to declarations and types; nothing is matched as text.
3. `lib/genpy.py`, `lib/genjava.py`, `lib/gencpp.py` interpret each method over abstract values (value numbering: fields, parameters, lengths, stream
   position, known runtime functions with their descriptors) and inline helper methods, so the result is a tree of events (write 5 unsigned bits of
   field x; align to 16; if presence; loop; check) that does not depend on how the code is phrased (`lib/interp.py`). `lib/canon.py` normalises
   conditions and merges branches.
4. `lib/zsparse.py` and `lib/model.py` read the schema text independently of the compiler (own grammar, templates, subtypes, parameters, imports)
   and `lib/layout.py` derives the event tree the schema prescribes.
5. The rules (`rules/*.py`) compare the two for each type, method and language. An obligation is one such comparison; a violation names the class,
   method, source line and the path where code and schema differ.

Bounds: soundness is for the corpus programs; from there to all schemas rests on the generator being template driven (one template branch per construct).
The corpora aim at every construct in every position (`wire`, `grid`, `widths`, `packs`, `shapes`, `multi` for packages, `expr`, `enums`).

### R rules: the runtimes by abstract interpretation

`lib/absdom.py` is a bit-provenance domain: a value is a vector whose bits are known, copies (possibly negated) of input bits, or unknown, together with
affine/linear forms over inputs and intervals. A branch on unknown bits partitions the input class (each part is again an abstract class), so
a handful of classes covers all 2^64 values. `lib/abspy.py` interprets Python syntax trees, `lib/absjvm.py` class files (javac of the current
sources), `lib/absllvm.py` LLVM IR (clang -O0 of the current sources through `corpus/rt/rt.cpp`). No solver and no concrete run is involved: each step is a
transfer function of the domain. `rules/rtrules.py` states what each runtime function must do (from the Encoding Guide) over the same domain and compares
results, stream contents and positions, bit for bit, with their provenance. Lengths, widths and positions are enumerated, values are not.

Where the domain cannot follow the code (`Lost`), the obligation is *undecided*: listed in the evidence, never an alarm. Floors on the number of
decided obligations (`rules/registry.py`) guard against a rule that silently analyses nothing; undecided ones count towards them.

'''
TAIL = '''
## Oracle decisions

- float16: ties away from zero, below 2^-24 becomes zero (documented behaviour of the runtimes and their tests).
- Hash of bytes and bit buffers in Java folds signed bytes; hash codes are compared across languages for scalar values only.
- Encodings of negative zero in varint types (never produced by a writer, except the smallest value of `varint`) are not judged.
- Arguments of parameterised array elements are checked on writing by no language; not demanded.
- Java compares floats in equality and parameter checks by their bits; accepted as equality of floats.
- Overflow of arithmetic in the target languages is not compared (G09): the operators, operands and conversions are.

## Findings

Genuine defects found by the checks and repaired with `fix:` commits in /repo (`known-findings.jsonl`, F1 to F%(nf)d):

%(found)s

Defects and limitations noticed and not repaired (outside what the registered properties state, or not small):

1. Python choices: `_choice` is unassigned after reading a case without a field, so `==` raises AttributeError.
2. The compiler reports an internal ArithmeticException for the bounds of `int << uint32`.
3. Python: integer `/` becomes `//` and `%%` floors, so negative quotients differ from C++ and Java.
4. Python constructors have a mutable default `bytearray()` for bytes fields.
5. Java `read(in)` into an existing object keeps optional fields that are absent in the stream.
6. Java `equals` ignores how many extended fields are present.
7. C++ and Python: 0.0 and -0.0 are equal but have different hash codes.
8. Python JSON parser: IndexError for a bitmask string of digits only; trailing garbage is ignored; escape `\\/` is rejected.
9. Python messages without f-prefix (bitreader.read_bits and others).
10. Java sizes above 2^31 bits overflow int (ensureCapacity, bitSizeOf).
11. Python `ObjectServiceData.byte_array` writes without initializing offsets.
12. The zserio_cpp binding returns a memoryview of the writer's buffer that dangles after the next write.
13. A type named `In` gives `import x.in` in Python, a syntax error.
14. `CompoundType.checkIndirectRecursion` overflows the stack for some mutually recursive types.
15. Java: function call results in BigInteger expressions, array indices of type long, and BigInteger shifts by long do not compile.
16. C++: `numbits` in a constant does not compile; escapes `\\x80` to `\\xFF` give raw bytes.
17. `bitmask M { NONE = 0, A }` gives A the value 2; the guide's "first unused bit" would be 1. Not in the corpus.

## What the planted changes showed

Planted in scratch state, each with a demonstration (seeded/<id>); none is committed in /repo.

%(bugs)s

Checks that missed a change when it was planted and what was added: G08/G07 (B07, B08: corpus `shapes`), G10 (B16: items after values with several bits), R06 (B14:
`numbits(long)` of Java). %(more)s

## Behaviour-preserving edits

The rules are tried on refactored trees: helper extraction, renamed locals, reordered independent statements, loops rewritten, comprehension/stream forms,
early returns, in generators and runtimes of all three languages. What the interpreters could not follow was added to them; the remainder is undecided, not an alarm.
Generated sources change only through templates and emitters; renames inside generated private helpers are followed by inlining.

## Cost

Quick tier: 20 to 120 s per property cold (8 cores); the compiler build, the generated sources and the front end results are cached under `/verif/.cache` by content.
The thorough tier enumerates more widths, positions and lengths in the R rules; the G rules are exhaustive over the corpora in both.
'''
import sys, json
sys.path[:0] = ['/verif/lib', '/verif/rules']
import props
found = '\n'.join('- %s %s: %s' % (x['id'], x['property'], x['text'].split(' ', 3)[3] if x['text'].startswith('fixed') else x['text'])
                  for x in map(json.loads, open('/verif/known-findings.jsonl')))
import os
bugs = ['| change | property | what it needs |', '|---|---|---|']
for b in sorted(os.listdir('/verif/seeded')):
    m = json.load(open('/verif/seeded/%s/meta.json' % b))
    bugs.append('| %s | %s | %s |' % (b, m['property'], m['needs'].replace('|', '/')))
out = [HEAD, '## Properties\n']
for p in props.PROPS:
    out.append('### %s %s\n\n%s\n\nDecided by: %s.\n\nCovers: %s. %s\n\nWhy tests cannot: %s\n' % (
        p['id'], p['title'], p['statement'], p['tech'], p['text'], p.get('note', ''), p['why']))
out.append(open('/verif/tools/design_na.md').read() if os.path.exists('/verif/tools/design_na.md') else '')
out.append(TAIL % dict(nf=len(found.split('\n')), found=found, bugs='\n'.join(bugs), more=''))
open('/verif/DESIGN.md','w').write('\n'.join(out))
