"""Writes /verif/properties.jsonl (kept as a script so that edits stay valid JSON)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

prop('C01', 'Assembling an instruction and disassembling the opcode is lossless',
 'For every instruction type built from bit vectors, bits, enums, products, tuples, sums and tagged unions, both assembler generations map every value to the same opcode, of exactly the declared width and in whatever bit-vector type was asked for; enum codes given by the user are kept. Disassembling that opcode gives back an equal value, and two different values never share an opcode.',
 ['programs', 'inputs'], 'every well-formed (nested) instruction type, every value of it, both assembler generations',
 'The tests round-trip five fixed ISAs; the encoder is a recursive function of the type, so nesting shapes, enum codings and payload-size mixes they do not contain are untested.',
 ['peak/assembler/assembler.py', 'peak/assembler2/assembler.py', 'peak/assembler/assembler_abc.py', 'peak/assembler2/assembler_abc.py'],
 [('recursive field packing', 'peak/assembler/assembler.py:_tuple,_sum,_enum,_field'), ('recursive bit-vector packing', 'peak/assembler2/assembler.py:_tuple,_sum,_enum'), ('assembler instance cache', 'assembler_abc.py:AssemblerMeta.__call__')],
 ['Assembler(T).assemble / disassemble / width'])

prop('C02', 'is_valid accepts exactly the opcodes that disassemble to a value',
 'For every instruction type and every bit pattern of its width, is_valid is true exactly when the pattern is the encoding of some value (bits a shorter sum payload does not use may hold anything), and disassembling any other pattern is refused with an error (a ValueError in the first generation). The same holds for the tag of a sum, and the answer does not depend on which other types were assembled earlier in the process or on whether the opcode is concrete or symbolic.',
 ['programs', 'inputs', 'histories'], 'every instruction type, all 2^width patterns, every order in which assemblers are created, concrete and symbolic opcodes',
 'Tests call is_valid only on opcodes they have just assembled, so it may accept everything; the range / one-hot / multi-range validators and their process-wide cache are never tried on invalid patterns.',
 ['peak/assembler/assembler_util.py', 'peak/assembler2/assembler_util.py', 'peak/assembler/assembler.py', 'peak/assembler2/assembler.py'],
 [('validator generation and cache', 'assembler_util.py:_gen_is_valid'), ('per-field / per-tag conjunction', 'assembler.py:_tuple.is_valid,_sum.is_valid')],
 ['Assembler(T).is_valid / is_valid_tag / disassemble / disassemble_tag'],
 [('_validator_cache', 'process-wide cache of validators', 'assembler_util.py')])

prop('C03', 'Layout, sub-field paths, extract and match locate fields exactly',
 "An assembler's published layout gives every field a bit range inside the opcode, and fields that can be live together (and the tag) never overlap. For every value and every path of nested fields, the slice of the opcode at that path is exactly the encoding of that sub-value, and the tag of a sum (read through the tag slice, assemble_tag/disassemble_tag, or match) selects exactly the active variant.",
 ['programs', 'inputs'], 'every instruction type, every value, every path through it, both assembler generations',
 'Tests check one level of paths on fixed ISAs; offsets accumulate through nesting, and unions of different payload sizes are not enumerated.',
 ['peak/assembler/assembler.py', 'peak/assembler/assembler_abc.py', 'peak/assembler2/assembler.py'],
 [('layout / tag_layout', 'peak/assembler/assembler.py'), ('sub-assembler path arithmetic', 'peak/assembler/assembler_abc.py:Sub'), ('extract / match', 'peak/assembler2/assembler.py')],
 ['Assembler(T).layout / tag_layout / sub[...].idx / tag_idx / assemble_tag / disassemble_tag / extract / match'])

prop('C04', 'An assembled ADT value behaves like the plain ADT value it encodes',
 'An assembled value (concrete or symbolic bit vectors, either assembler generation) built from a plain value, from its opcode, or field by field has the opcode of that plain value. Reading a field gives the assembled form of the plain field, matching on a sum variant is true exactly when that variant is active and then yields its payload, and equality with assembled, plain and raw values agrees with equality of the plain values.',
 ['programs', 'inputs'], 'every instruction type, every value, the concrete and symbolic bit-vector families, both assembler generations',
 'Tests enumerate two small ISAs; they do not build field by field with nested sums of different sizes, nor compare unequal values systematically.',
 ['peak/assembler/assembled_adt.py', 'peak/assembler2/assembled_adt.py'],
 [('construction from layout', 'assembled_adt.py:_create_from_layout,from_fields'), ('field / variant access', 'assembled_adt.py:AssembledADT._get'), ('equality', 'assembled_adt.py:AssembledADT.__eq__')],
 ['AssembledADT[T, Assembler, BV](...), from_fields, field access, .match/.value, ==, !='])

prop('C05', 'Bit-field encoding puts every operand in its declared bits',
 'Encoding an instruction of a (possibly annotated) instruction family places every operand, in the declared order from the low bits up (or from the high bits down, with reverse), next to its neighbours, the tag of a variant below or above its payload, and the word of a type annotated with an offset at that offset. Every operand can be read back from its own bits, and no operand, tag or size, whatever its value, influences the bits of another field.',
 ['programs', 'inputs'], 'every annotated instruction family with disjoint fields and every operand value',
 'The tests encode a handful of RISC-V-like instructions with fixed operands.',
 ['peak/bitfield.py'],
 [('encode / tag / bitfield / size', 'peak/bitfield.py')], ['bitfield.encode', 'bitfield.size'])

prop('C06', 'A register returns its previous content and keeps only enabled writes',
 'Every register, plain or written as an attribute, returns on each call the value stored by the most recent preceding enabled write, or its declared initial value if there is none, never the value being written in the same call. An attribute register read after an assignment in the same call shows the value assigned. A write with the enable low leaves the content unchanged, and instances of the same register type never share state.',
 ['histories', 'inputs', 'configurations'], 'every finite history of calls on several instances, every content type, initial value and enable setting, in every executable family',
 'Tests drive a few fixed call sequences on one instance; state leaks between instances or across the enable need interleaved histories.',
 ['peak/register.py', 'peak/family.py', 'peak/peak.py'],
 [('gen_register / gen_attr_register', 'peak/family.py, peak/register.py'), ('attribute protocol', 'peak/peak.py')], ['gen_register(T, init, has_enable)', 'self.r = v; self.r'])

prop('C07', 'A memory returns the last value written to the address read',
 'A random-access memory returns on every access the content its address held before the access, holds the initial value at addresses never written, and changes only the addressed word and only when the write enable is set. A read-only memory returns the configured word for ever. Addresses are read as unsigned numbers; an address outside of the memory, negative ones included, is refused and alters nothing, and separate instances never share content.',
 ['histories', 'inputs', 'configurations'], 'every finite history of accesses on several instances, every depth, width and initial content',
 'Tests do not exercise the memory class by histories at all; aliasing between addresses or instances shows only after particular sequences.',
 ['peak/memory.py'], [('Memory / RAM / ROM', 'peak/memory.py')], ['memory objects'])

prop('C08', 'Python execution of a peak program follows its reference semantics',
 'For every program of the peak language (arithmetic, comparisons, slices, conditionals, nested components, enums, products, sums, registers), the outputs of each call in the python family, with and without the rewriting passes the extended python family applies, are those of the sequential reading of the source, and state advances exactly once per call. In particular a conditional evaluates to the taken branch and an attribute register assigned only in the branch not taken keeps its value.',
 ['programs', 'inputs', 'histories'], 'every program of the modelled language, every input sequence from reset',
 'Tests run a dozen fixed PEs on random inputs; source rewriting (single assignment, if-to-phi, bool-to-bit, assembled types) is a compiler whose bugs need particular program shapes.',
 ['peak/family.py', 'peak/peak.py', 'peak/features.py', 'peak/register.py'],
 [('assemble / rewriting pass pipeline', 'peak/family.py'), ('component calls and register attributes', 'peak/peak.py')], ['family.PyFamily / PyXFamily closures, called step by step'])

prop('C09', 'Symbolic execution of a peak program agrees with its Python execution',
 'For every program of the peak language, the formula its symbolic execution produces, evaluated at any input and any register contents, has the value the reference semantics gives for that step; the same holds for every step of an unrolled history.',
 ['programs', 'inputs', 'histories'], 'every program of the modelled language, all inputs of the modelled widths, every history up to the unrolling bound',
 'Tests compare families on few programs and random inputs, never a formula against every input.',
 ['peak/family.py', 'peak/assembler/assembled_adt.py', 'peak/register.py'],
 [('SMT family rewriting and types', 'peak/family.py:SMTFamily'), ('assembled symbolic values', 'peak/assembler/assembled_adt.py')], ['family.SMTFamily closures'])

prop('C10', 'Generated hardware computes what the Python program computes, cycle by cycle',
 'For every program of the peak language, the circuit generated from it produces, cycle by cycle from reset, the outputs that the reference semantics of the program gives for the same inputs, with instructions presented as their assembled opcodes.',
 ['programs', 'inputs', 'histories'], 'every program of the modelled language, every input history from reset',
 'Tests simulate a few fixed PEs for single steps with random inputs.',
 ['peak/family.py', 'peak/assembler/assembled_adt.py', 'peak/rtl_utils.py', 'peak/register.py'],
 [('magma family: sequential conversion, registers, ADT wiring', 'peak/family.py:MagmaFamily'), ('magma ADT', 'peak/assembler/assembled_adt.py:MagmaADT'), ('disassembling wrapper', 'peak/rtl_utils.py')], ['verilated circuit of the magma family closure'])

prop('C11', 'A family closure yields one result per family and never mixes families',
 'Calling a family closure any number of times with equal families and arguments returns the identical object, built by running the body once; families or arguments that are not equal (in Python) are never answered with each other\'s result, and how a request spells its arguments (by position, by keyword, in any order, defaults left out) makes no difference. Every class it yields uses only that family\'s bit and bit-vector types, whatever was requested before and in whatever order.',
 ['histories', 'configurations'], 'every order and repetition of requests over families (including user subclasses), arguments and keyword orders, several closures interleaved',
 'Tests request each family once; cache-key confusions need particular orders and families that compare alike.',
 ['peak/features.py', 'peak/family.py'], [('closure cache', 'peak/features.py:family_closure'), ('family equality and hashing', 'peak/family.py'), ('register class cache', 'peak/family.py')], ['closure(family, *args, **kwargs)'],
 [('cache', 'results per (family, args)', 'peak/features.py')])

prop('C12', 'Black boxes report the inputs they were given and return what they were set to',
 'A call of a black-box component returns exactly the outputs most recently set on that instance and makes the arguments of the latest call, in declared order, readable from outside; instances do not affect each other. Discovery on a component lists every black box reachable through the attributes of the component and of its sub-components (not inside black boxes) exactly once, under a path that leads to that object, and nothing else, at every moment of the component\'s life.',
 ['histories', 'programs', 'configurations'], 'every interleaving of set / call / read on several instances, every component tree, positional and keyword calls',
 'Tests use one or two black boxes and one order of operations.',
 ['peak/black_box.py'], [('BlackBox call protocol', 'peak/black_box.py:BlackBox'), ('path discovery', 'peak/black_box.py:get_black_boxes,get_black_box')], ['BlackBox._set_outputs / __call__ / _get_inputs, get_black_boxes'],
 [('input / output latches', 'last call arguments, outputs to return', 'BlackBox instance')])

prop('C13', 'A rewrite rule found by the mapper is correct for every input',
 'Whenever the mapper returns a rewrite rule for an IR instruction and an architecture, then for all values of the IR inputs the architecture, with its constant and instruction inputs set as the rule says and its data inputs connected as the rule says, produces the IR outputs at the matched outputs, whatever the inputs the rule leaves free and within the path constraints given: a restricted constant gets one of its allowed values, and the rule holds for every allowed value of a restricted data input.',
 ['programs', 'inputs', 'configurations'], 'every pair of IR program and architecture of the modelled language, every solver option, all inputs of the modelled widths',
 'Tests find rules for a few fixed pairs and mostly trust the mapper\'s own verifier.',
 ['peak/mapper/mapper.py', 'peak/mapper/utils.py', 'peak/mapper/formula_constructor.py', 'peak/mapper/index_var.py'],
 [('formula construction and solving loop', 'peak/mapper/mapper.py:IRMapper'), ('input/output bindings', 'peak/mapper/utils.py')], ['ArchMapper(arch).process_ir_instruction(ir).solve(...)'])

prop('C14', 'The mapper finds a rewrite rule whenever one exists',
 'If some choice of constants, instruction and connection of the architecture\'s inputs and outputs (each IR input to one architecture input of the same type and kind, within the path constraints given) implements the IR instruction for all inputs, the mapper returns a rule rather than reporting that none exists. The answer does not depend on the solving strategy or on the index encoding.',
 ['programs', 'configurations', 'inputs'], 'every pair of IR program and architecture of the modelled language, both solving loops, every index encoding',
 'A missing rule looks like a legitimate answer; only an independent enumeration of the binding space decides it.',
 ['peak/mapper/mapper.py', 'peak/mapper/utils.py', 'peak/mapper/index_var.py', 'peak/mapper/formula_constructor.py'],
 [('binding enumeration', 'peak/mapper/utils.py:create_bindings'), ('form and path enumeration', 'peak/mapper/utils.py:SMTForms'), ('exists-forall loops', 'peak/mapper/mapper.py')], ['solve(...) returning a rule or None'])

prop('C15', 'Rule verification accepts exactly the correct rules and its counterexamples are real',
 'Verifying a rewrite rule, found or hand-written, succeeds exactly when the rule holds for every input; a rule that leaves a constant or instruction input of the architecture without a legal value is refused. When it fails, the counterexample returned is an input on which the IR and the architecture really differ.',
 ['programs', 'inputs'], 'every rule over the modelled language, correct or corrupted in any constant or connection',
 'Tests verify rules that are correct, so a verifier that always accepts passes.',
 ['peak/mapper/mapper.py', 'peak/mapper/utils.py'], [('RewriteRule.verify / build_inputs', 'peak/mapper/mapper.py')], ['RewriteRule.verify()'])

prop('C16', 'Rewrite rules survive serialization',
 'Writing a rule\'s input and output bindings out and reading them back gives a rule with the same bindings, for constants of every field type, nested paths and unbound inputs, so that it verifies and builds inputs exactly as the original.',
 ['programs', 'inputs'], 'every rule over the modelled language and instruction types',
 'Tests serialize three rules.',
 ['peak/mapper/mapper.py', 'peak/mapper/utils.py'], [('serialize_bindings / read_serialized_bindings', 'peak/mapper/mapper.py')], ['RewriteRule.serialize_bindings, read_serialized_bindings'])

prop('C17', 'A multi-instruction mapping reported as found implements the specification',
 'When the multi-instruction mapper reports a solution, the program it describes (order of instructions, operand sources, constants, result) computes the specification for every input; when it reports none, no program within the bound does.',
 ['programs', 'inputs', 'configurations'], 'every small specification, instruction set and length bound, both index encodings',
 'The existing test prints the solution and checks nothing.',
 ['peak/mapper/multi.py', 'peak/mapper/index_var.py'], [('dataflow / well-formedness constraints', 'peak/mapper/multi.py'), ('index variables', 'peak/mapper/index_var.py')], ['multi-mapper solve'])

prop('C18', 'Index variables take exactly the values of their domain',
 'For every domain size and encoding, an index variable can denote each index of its domain and nothing else under its well-formedness constraint, different indices are distinguishable, and selecting with it yields the selected element. The one-hot and the binary encoding are interchangeable.',
 ['inputs', 'configurations'], 'every domain size in the bound, all assignments of the underlying bits',
 'Used only inside solver queries; no test reads an index variable.',
 ['peak/mapper/index_var.py'], [('OneHot / Binary', 'peak/mapper/index_var.py')], ['IVar subclasses'])

prop('C19', 'Symbolic forms and bindings enumerate each alternative exactly once',
 'The set of candidate bindings between an IR interface and an architecture interface contains every type-correct way to connect each IR input to one architecture input and leave the rest free, each once, and nothing else. The forms of an instruction type cover every choice of sum variants exactly once, and a form\'s variables decode to exactly the values of that shape.',
 ['programs', 'configurations'], 'every pair of interface types and every instruction type within the bound',
 'Tests check counts for a few types; the enumeration is combinatorial in the types.',
 ['peak/mapper/utils.py'], [('create_bindings', 'peak/mapper/utils.py'), ('SMTForms', 'peak/mapper/utils.py')], ['create_bindings, SMTForms'])

prop('C20', 'IR instructions compute their registered function',
 'Every instruction registered in an IR is retrievable under its name, in registration order, can be built and used as a component in every family, and computes the registered function of its inputs with the declared input and output names and types; a name cannot silently replace an earlier instruction.',
 ['histories', 'inputs', 'configurations'], 'every sequence of registrations and look-ups, every family',
 'Tests register three instructions and look one up.',
 ['peak/ir.py', 'peak/features.py'], [('registry', 'peak/ir.py:IR')], ['IR.add_instruction / add_peak_instruction / instructions'])

prop('C21', 'Declared interfaces are the interface: names, order, types and checks',
 'The input and output types derived from a component list exactly the annotated parameters and named results, in order and with the types of the family, and a call with a missing or an extra argument is refused. Where type checking is requested (in the plain Python family) returning a value of another type or another number of values is refused, and nothing is altered otherwise. Decorating a component does not change what it computes.',
 ['programs', 'inputs'], 'every signature of the modelled types, every combination of decorators and of argument types',
 'Tests check two or three signatures.',
 ['peak/features.py', 'peak/peak.py'], [('gen_input_t / gen_output_t / name_outputs / typecheck', 'peak/features.py')], ['C.input_t, C.output_t, calls'])

prop('C22', 'Floating-point operations round as the selected mode says',
 'Every operation of the generated floating-point library returns the correctly rounded result of the exact operation for the rounding mode given, whether the mode is fixed when the library is built or supplied with the operands; special operands (infinities, NaN, signed zeros, subnormals) follow IEEE 754, comparisons and the classifying predicates agree with the numeric value, and each rounding mode keeps its code.',
 ['inputs', 'configurations'], 'all operands of small formats, all rounding modes, fixed and dynamic',
 'Tests run a few random operands at one or two modes.',
 ['peak/float.py'], [('float_lib_gen, const_rm, RoundingMode dispatch', 'peak/float.py')], ['float_lib_gen(...)'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
