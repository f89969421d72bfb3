"""The properties: statement, anchors, how each is decided. properties.jsonl and MANIFEST.json are written from here
(tools/docs.py)."""
TV, OTHER = 'translation_validation', 'other'
TPL = ['compiler/extensions/cpp/freemarker', 'compiler/extensions/java/freemarker', 'compiler/extensions/python/freemarker']
EMIT = ['compiler/extensions/cpp/src/zserio/extension/cpp', 'compiler/extensions/java/src/zserio/extension/java',
        'compiler/extensions/python/src/zserio/extension/python']
GEN_NOTE = ('Sound for the generated sources of the corpus schemas (every construct of the schema language in every position); '
            'the step from these schemas to all schemas rests on the generator being template driven. Trusts the compiler front '
            'ends (javac, clang, CPython ast) and the independent schema reader in lib/zsparse.py and lib/model.py.')
GEN_TECH = ('translation validation by dataflow: the generated C++, Java and Python sources are resolved by clang, javac and the '
            'Python ast, abstracted to event trees by value numbering, and compared with trees derived from the schema')

RT = ['compiler/extensions/cpp/runtime/src/zserio', 'compiler/extensions/java/runtime/src/zserio/runtime',
      'compiler/extensions/python/runtime/src/zserio']
ABS_TECH = ('abstract interpretation of the Python syntax tree, the Java class files and the C++ LLVM IR over a bit-provenance domain '
            '(known bits, affine and linear forms, partitioning of the inputs where a branch needs it), compared with an encoding table')
ABS_NOTE = ('Every input value of the stated widths is covered by abstract classes; nothing of the runtime is executed. Lengths, bit '
            'positions and widths are enumerated as the evidence lists. Code the domain cannot follow is reported as undecided in the '
            'evidence, never as a violation. Trusts javac, clang -O0, the CPython parser and the transfer functions in lib/abs*.py.')

PROPS = [
 dict(id='G01', title='Generated writers emit exactly the bit layout the schema prescribes',
  statement='For every schema and every object, the code generated for C++, Java and Python writes the fields in declaration order '
            'with the declared type and bit width, preceded by the presence bit, alignment padding, union tag or selector case the '
            'schema prescribes, and writes nothing else. The same holds for the packed form used for members of packed arrays, so '
            'the three languages produce interchangeable data.',
  over=['programs', 'inputs'], text='all schemas accepted by the compiler, all values of their types, three target languages, plain and packed form',
  why='The repository tests no generated serialization code at all: templates run only in a separate integration project. A '
      'wrong template shows only for the type kind and position it affects.',
  files=TPL + EMIT, mech=[('field writers', 'write macros of the struct, choice, union, enum and bitmask templates'),
                          ('runtime function selection', 'RuntimeFunctionDataCreator and ArrayTraits classes of the three extensions')],
  level=TV, tech=GEN_TECH, note=GEN_NOTE),
 dict(id='G02', title='Generated readers consume the same layout and rebuild the same objects',
  statement='For every schema, the generated reading code of each language consumes exactly the elements the writing code of any '
            'language emits, in the same order and under the same conditions. Each value read ends up in the field it belongs to, '
            'and every compound or array is constructed with the arguments, length, element type and offset handling the schema '
            'gives, whether it is read or set by the application.',
  over=['programs', 'inputs'], text='all schemas, all well-formed byte streams, three languages, plain and packed form',
  why='As for writing: no test of the repository runs generated readers; round trips would only sample schemas and values, '
      'and writer and reader can be wrong together.',
  files=TPL + EMIT, mech=[('field readers', 'read macros of the templates'), ('element factories', 'array element factory templates'),
                          ('instantiated arguments', 'parameter passing in compound_parameter templates')],
  level=TV, tech=GEN_TECH, note=GEN_NOTE),
 dict(id='G03', title='Computed sizes and offsets describe the bytes actually written',
  statement='For every object and start position, the size that generated code computes advances the position through the same '
            'elements, padding and presence bits that its writer emits. Offset initialisation visits the same elements in the same '
            'order and stores, for every field with an offset, the byte position at which the writer will place that field.',
  over=['programs', 'inputs'], text='all schemas, values and start bit positions, three languages, plain and packed form',
  why='Size and offset code is generated separately from write code and no test of the repository compares them; a mistake '
      'shows only for unaligned starts, optional or extended members, or packed arrays.',
  files=TPL + EMIT, mech=[('bitSizeOf', 'bitsizeof macros'), ('initializeOffsets', 'offset macros')],
  level=TV, tech=GEN_TECH, note=GEN_NOTE),
 dict(id='G04', title='Packed arrays describe every packable member before any element',
  statement='For every type used in a packed array, preparing the packing information visits every packable member of an element '
            'exactly once, with the condition, width and nested path under which the member is later written, sized and read.',
  over=['programs', 'inputs'], text='all types that occur in packed arrays, all element values, three languages',
  why='A member missing from the preparation is encoded with an unset delta descriptor; only data with particular deltas shows it '
      'and no test of the repository runs this generated code.',
  files=TPL + EMIT, mech=[('initPackingContext', 'packing context macros'), ('ZserioPackingContext', 'nested context classes')],
  level=TV, tech=GEN_TECH, note=GEN_NOTE),
 dict(id='G05', title='Generated code checks constraints, lengths, offsets and parameters',
  statement='Generated writers and readers of every language check each constraint, declared array length, declared offset and '
            'instantiation parameter of the schema, exactly when the field it belongs to exists, against the expression the schema '
            'gives, and fail with an error when it does not hold. A constraint is checked on reading only after the field was read. '
            'No other value is rejected by these checks.',
  over=['programs', 'inputs'], text='all schemas, all objects written and all streams read, three languages (arguments of array elements are not checked by any language)',
  why='A check that is missing, inverted, or run when the field is absent shows only for data that violates it (or for absent '
      'fields); no test of the repository runs generated code.',
  files=TPL + EMIT, mech=[('constraint checks', 'field_check_constraint macros'), ('offset and array length checks', 'write macros'),
                          ('parameter checks', 'parameter macros')],
  level=TV, tech=GEN_TECH, note=GEN_NOTE),
 dict(id='G06', title='Generated equality and hash codes use exactly the same state',
  statement='Two generated objects of the same type compare equal exactly when their parameters, the presence of their optional '
            'fields and the values of the fields that are present (the selected one for choices and unions) are equal; objects of '
            'other types are unequal. The hash code folds only values that equality looks at, in one order per type, so equal '
            'objects have equal hash codes. The C++ ordering operator compares the same values in one fixed lexicographic order.',
  over=['programs', 'inputs'], text='all schemas, all pairs of objects of a generated type, three languages',
  why='The number of combinations of present, absent and selected fields is unbounded and no generated class is compared in the tests.',
  files=TPL + EMIT, mech=[('equality', 'equals / operator== / __eq__ macros'), ('hash', 'hashCode / __hash__ macros')],
  level=TV, tech=GEN_TECH, note=GEN_NOTE),
 dict(id='G07', title='Generated accessors and constructors keep each value in its own field',
  statement='In every generated class, a getter returns what was last stored in its field by the setter, the constructor argument '
            'or the reader, and touches no other field. Presence queries report exactly when a field exists (its optional condition, '
            'its set value, or the number of extended fields read), resetting makes it absent, fields with a default start with it, '
            'and setting a union member or asking for the choice tag gives the tag of that member.',
  over=['programs', 'inputs'], text='all schemas, all sequences of accessor calls, three languages',
  why='Each generated class has its own accessors, and the repository compiles and runs none of them.',
  files=TPL + EMIT, mech=[('accessors', 'getter, setter and optional macros of the templates'),
                          ('constructors', 'field constructor templates, ChoiceTag and initializer emission'),
                          ('initial values', 'field initializer expressions')],
  level=TV, tech=GEN_TECH, note=GEN_NOTE),
 dict(id='G08', title='Copies of generated C++ objects are complete and independent',
  statement='Copying, moving or assigning a generated C++ object transfers every member once, and the initialization of children '
            'afterwards passes every parameterised child the arguments of the new parent. Parameters of an initialized object are '
            'never left pointing at the source, and an uninitialized object stays uninitialized.',
  over=['programs', 'inputs'], text='all schemas, all generated compound types, all copy, move, assignment and NoInit operations',
  why='Members are listed by hand in five generated operations per class; a missing one shows only for types with that member and '
      'after a copy, and no test of the repository compiles generated C++.',
  files=['compiler/extensions/cpp/freemarker', 'compiler/extensions/cpp/src/zserio/extension/cpp'],
  mech=[('compound constructors', 'compound_constructor.inc.ftl, compound_field.inc.ftl'),
        ('children initialization', 'initializeChildren macros')],
  level=TV, tech=GEN_TECH, note=GEN_NOTE),
 dict(id='G09', title='Generated expressions and constants mean what the schema says',
  statement='A schema function generated for C++, Java or Python returns the value of the schema expression: the same operands, '
            'operators, grouping and conversions by the precedence of the schema language, for every operator, operand type and '
            'nesting, across packages. Every constant has the value the schema gives it, in a type that can hold it.',
  over=['programs', 'inputs'], text='all expressions over integers, floats, booleans, strings, enumerations, bitmasks, fields, parameters and functions, all constants, three languages',
  why='Operator precedence, unary signs, big integers and literal escapes differ between the target languages; a wrong '
      'parenthesis or conversion shows for single combinations of operators and types, and no test of the repository compiles expressions.',
  files=EMIT + ['compiler/core/src/zserio/extension/common'],
  mech=[('formatting', 'ExpressionFormatter and the expression formatting policies of the three extensions'),
        ('literals', 'literal formatters and StringEscapeConverter'), ('constants', 'ConstEmitterTemplateData, Constant*.ftl')],
  level=TV, tech=GEN_TECH, note=GEN_NOTE + ' Arithmetic of the target types (overflow, rounding of negative quotients) is not compared.'),
 dict(id='G10', title='Generated enumerations and bitmasks have exactly the items of the schema',
  statement='In every language a generated enumeration or bitmask has exactly the items of the schema with their values, stated or '
            'derived by the rules of the language guide, for every base type. Conversions from a value, from a name and to an ordinal are '
            'inverse to the items and refuse anything else, the C++ traits list names and values in schema order, and writing a removed '
            'item is an error while writing any other item is not.',
  over=['programs', 'inputs'], text='all enumerations and bitmasks, every base type, all items, values and names, three languages',
  why='Values at the limits of each base type, derived values, and deprecated or removed items meet in many combinations; the generated '
      'tables are compiled by no test of the repository.',
  files=TPL + EMIT + ['compiler/core/src/zserio/ast'], mech=[('items', 'EnumerationEmitterTemplateData, EnumItem, BitmaskValue'),
        ('conversions', 'Enumeration.*.ftl, Bitmask.*.ftl'), ('value literals', 'native integral type formatters')],
  level=TV, tech=GEN_TECH, note=GEN_NOTE),
 dict(id='G11', title='Generated type information and reflection data describe the schema',
  statement='The type information the code generated for C++, Java and Python exposes at run time describes exactly the schema: type '
            'names, kinds, fields in order with their types and arguments, optional, auto-optional, array, packed, implicit and extended '
            'flags, alignment, offset, initializer, constraint and length expressions, parameters, functions, selector and cases, '
            'items of enumerations and bitmasks with values and removal flags, underlying types and template arguments. The accessor '
            'names it lists exist in the generated class.',
  over=['programs', 'inputs'], text='all schemas accepted by the compiler, all type kinds, three target languages',
  why='Type information is read by generic tools, the tree creator, the walker and JSON export; a wrong flag or name surfaces only when '
      'one of them meets that field, and the unit tests use hand written type information.',
  files=TPL + EMIT, mech=[('type information', 'TypeInfo.inc.ftl of each language, *TypeInfoTemplateData, CompoundFieldTemplateData'),
        ('native types in type information', 'NativeTypeInfoTemplateData, NativeTypeMapper')],
  level=TV, tech=GEN_TECH.replace('event trees', 'values'), note=GEN_NOTE),
 dict(id='G12', title='Generated code binds: every name, member, type and call resolves',
  statement='The code generated for every valid schema compiles: the C++ and Java compilers accept every unit without an error, and in '
            'Python every module that is imported exists and can be imported in any order, every name is bound where it is used, every '
            'annotation, member and attribute exists on the class it is looked up on, and every call passes arguments the callee takes. '
            'This holds for every combination of the generator options.',
  over=['programs', 'configurations'], text='all schemas accepted by the compiler, option sets, three target languages',
  why='The repository compiles no generated code in its unit tests; in Python a missing import or wrong attribute shows only when that '
      'line runs.',
  files=TPL + EMIT, mech=[('imports and includes', 'the ImportCollector, IncludeCollector and package emitters of each language'),
        ('native type mapping', 'CppNativeMapper, JavaNativeMapper, PythonNativeMapper'), ('options', 'the extension parameters and templates')],
  level=TV, tech='name resolution and type checking of the generated sources: clang -fsyntax-only, javac without code generation, and an '
                 'own binder for Python (scopes, imports, members with types inferred from the schema, call signatures)', note=GEN_NOTE),
 dict(id='G13', title="Generated SQL tables and databases store and load exactly the schema's columns",
  statement='For every SQL table the generated code of each language creates the table with its columns, types and constraints, virtual '
            'ones with their module, and selects, inserts and updates exactly the columns asked for or all of them, each bound and read '
            'at its own position. A value written is the value read back for every column type and NULL stands for an absent value. '
            'A database creates and deletes the schema of each of its tables and gives access to each under its own name.',
  over=['programs', 'inputs'], text='all column types, column selections, NULL patterns, tables with and without rowid, virtual tables, three languages',
  why='Column selection, NULL patterns and column types multiply; no test of the repository runs generated SQL code.',
  files=TPL + EMIT, mech=[('tables', 'SqlTable templates, SqlTableEmitterTemplateData, SqlNativeTypeMapper'),
        ('databases', 'SqlDatabase templates, SqlDatabaseEmitterTemplateData'), ('column types', 'compiler/core SqlConstraint, SqlTableType')],
  level=TV, tech='constant propagation and partial evaluation of the syntax trees of the generated table and database classes for every column '
                 'selection and NULL pattern; the resulting database calls are compared with those derived from the schema', note=GEN_NOTE),
 dict(id='G14', title='Generated services and pubsubs call what they name',
  statement='A generated service lists exactly the methods of the schema under their full names, calls the implementation of the method '
            'asked for with the decoded request and the caller\'s context, encodes what it returns, and refuses unknown names. A client '
            'sends the request of its method under the same name and decodes the response. A pubsub publishes and subscribes only '
            'where the schema says so, with the topic, type and identifier of that message.',
  over=['programs', 'inputs'], text='all services and pubsubs, all methods and messages, raw bytes and object payloads, three languages',
  why='Dispatch by name is wired in templates; no test of the repository compiles or calls a generated service.',
  files=TPL + EMIT, mech=[('services', 'Service templates, ServiceEmitterTemplateData'), ('pubsubs', 'Pubsub templates, PubsubEmitterTemplateData')],
  level=TV, tech='constant propagation and partial evaluation of the syntax trees of the generated service, client and pubsub classes for every '
                 'method and message name; the resulting calls are compared with those derived from the schema', note=GEN_NOTE),
 dict(id='R01', title='Variable length integers are encoded as the Encoding Guide prescribes',
  statement='For every value, the runtime of each language writes varint16/32/64, varint, varuint16/32/64, varuint and varsize in the '
            'smallest number of bytes with the sign, continuation and value bits the Encoding Guide prescribes, refuses values outside '
            'the range of the type, and computes exactly the size it writes. Reading those bytes at any position returns the value and '
            'consumes exactly these bits; a varsize above its maximum is rejected.',
  over=['inputs'], text='all 64 bit values (Python: all integers up to 65 bits) of nine types, all encodings, three runtimes',
  why='Tests sample a few values per byte count; boundaries of every length, signs and malformed continuation bytes cannot be enumerated.',
  files=RT, mech=[('writers', 'BitStreamWriter, ByteArrayBitStreamWriter, bitwriter'), ('readers', 'BitStreamReader, ByteArrayBitStreamReader, bitreader'),
                  ('sizes', 'BitSizeOfCalculator, bitsizeof')],
  level=OTHER, tech=ABS_TECH, note=ABS_NOTE),
 dict(id='R02', title='Bit stream reads and writes keep every bit in its place',
  statement='At every bit position and for every width from 1 to 64, the bit stream writers of the three runtimes append exactly the '
            'bits of the value, most significant first, and leave all bits written before as they were; the readers return exactly '
            'these bits, with the sign for signed types. The same holds for booleans, 32 and 64 bit floats, byte arrays, strings, bit buffers '
            'and alignment padding, whether the position is aligned to a byte or not.',
  over=['inputs'], text='all values, widths 1 to 64, all eight bit offsets, byte sequences up to three bytes and bit buffers up to 24 bits, three runtimes',
  why='The product of widths, offsets, types and values is far beyond what unit tests enumerate; an error in one shift or mask shows '
      'for particular combinations only.',
  files=RT, mech=[('bit writers', 'writeBits family'), ('bit readers', 'readBits family and its cache'), ('byte sequences', 'read/write of bytes, strings and bit buffers')],
  level=OTHER, tech=ABS_TECH, note=ABS_NOTE),
 dict(id='R03', title='Streams are bounded and values that do not fit are refused',
  statement='In every runtime, reading any type beyond the end of a bit stream is an error and never returns data from behind its '
            'last bit, and writing a value that does not fit the requested number of bits is an error. The C++ writer never touches memory '
            'outside its buffer: a write that does not fit is an error, and a writer without a buffer only advances its position.',
  over=['inputs', 'faults'], text='all values, widths 1 to 64, all types of the stream interface, streams cut at any byte and by single bits, three runtimes',
  why='Truncated and hostile streams come in every length; a missing bound in one of the reading paths shows only for one type, width and alignment.',
  files=RT, mech=[('end of stream', 'reader position checks'), ('value range', 'writer range checks'), ('capacity', 'C++ BitStreamWriter buffer checks')],
  level=OTHER, tech=ABS_TECH, note=ABS_NOTE),
 dict(id='R04', title='float16 conversion follows IEEE 754 in every runtime',
  statement='Reading a float16 yields the single precision value with the same sign and magnitude, including subnormal numbers, '
            'infinities and NaN. Writing any single precision value yields the nearest half precision value (ties away from zero), zero below '
            '2^-24, infinity above the range, and NaN for NaN; the three runtimes agree on every value.',
  over=['inputs'], text='all 2^32 single precision and all 2^16 half precision patterns, three runtimes',
  why='The interesting values (subnormals, rounding carries, overflow) are spread over 2^32 patterns of which tests take a dozen.',
  files=RT, mech=[('conversion', 'FloatUtil, float.py'), ('stream functions', 'readFloat16, writeFloat16')],
  level=OTHER, tech=ABS_TECH, note=ABS_NOTE),
 dict(id='R05', title='Hash codes and bit buffer equality depend on content alone',
  statement='The hash functions of the runtimes fold exactly the content of the value: every element once and in order, both '
            'halves of 64 bit values, only the bits that belong to a bit buffer; scalar values have the same hash code in C++, Java and Python. Two '
            'bit buffers are equal exactly when they have the same number of bits and the same bits, whatever lies behind the last bit.',
  over=['inputs'], text='all values and seeds of the scalar types, sequences up to three elements, bit buffers up to 27 bits, three runtimes',
  why='Equal objects with different garbage behind their last bit, or values that differ only in their upper half, are never sampled.',
  files=RT, mech=[('hash functions', 'HashCodeUtil, hashcode.py'), ('bit buffers', 'BitBuffer, bitbuffer.py')],
  level=OTHER, tech=ABS_TECH, note=ABS_NOTE),
 dict(id='R06', title='Size, bound and alignment helpers of the runtimes are exact',
  statement='In every runtime, the size functions for bytes, strings and bit buffers give the length of the encoding including its varsize '
            'prefix, the bounds of bit fields of each width and signedness are exactly the smallest and largest value, numbits gives the number of '
            'bits needed for that many values, and aligning a position gives the next multiple.',
  over=['inputs'], text='all widths 1 to 64, all 64 bit arguments of numbits, lengths around the varsize boundaries, three runtimes',
  why='These helpers are used by all generated code with every width and value; tests call them for a few arguments.',
  files=RT, mech=[('sizes', 'BitSizeOfCalculator, bitsizeof.py'), ('bit fields', 'BitFieldUtil, bitfield.py'), ('operators', 'BuiltInOperators, builtin.py'),
                  ('alignment', 'BitPositionUtil, bitposition.py')],
  level=OTHER, tech=ABS_TECH, note=ABS_NOTE),
 dict(id='R07', title='Arrays are encoded exactly as prescribed, packed or not',
  statement='In every runtime, an array of any element type in any mode (fixed length, auto, implicit, with indexed offsets) is written as its '
            'varsize length (auto only) followed by its elements, each aligned to a byte when there are offsets; its reported size and its '
            'initialized offsets agree with that; a packed array has the descriptor, the first element and the deltas the encoding guide prescribes '
            '(packed only when that is smaller, with the smallest width that holds every delta, never more than 62 bits), reading gives back the same elements '
            'and also takes streams no writer chooses, a stream that ends early is an error, and arrays are equal exactly when their elements are.',
  over=['inputs'], text='35 element kinds in up to five modes packed and unpacked, symbolic elements for plain arrays, delta widths 0 to 63, three runtimes',
  why='Delta packing depends on every element at once (its width, whether it pays off, wrap-around at the ends of the type); tests pack a few short arrays.',
  files=RT, mech=[('arrays', 'zserio/Array.h, zserio/runtime/array/Array.java, zserio/array.py'), ('delta packing', 'DeltaContext.h, DeltaContext.java, array.py DeltaContext'),
                  ('array traits', 'ArrayTraits.h, ArrayTraits.java, RawArray.java')],
  level=OTHER, tech=ABS_TECH, note=ABS_NOTE),
]
