#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it is easy to edit)."""
import json, os
P = []


def p(id, title, statement, over, quant, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=hook)))


S = 'src/avb/'
ALLPY = [S + f for f in ('core.py', 'file.py', 'ioctx.py', 'attributes.py', 'bin.py', 'components.py',
                         'trackgroups.py', 'misc.py', 'essence.py')]

p('C01', 'A written file reopens to exactly the content that was in memory',
  'Whatever graph of objects is reachable from a file\'s bin - built from scratch, loaded, edited or copied - writing it in '
  'either byte order and opening the result gives the same graph: the same objects in the same order, the same kinds, field '
  'values (including which optional fields are present), references and sharing. A field value the format cannot represent '
  '(an integer out of range, a string that cannot be encoded or is too long, a list with too many entries) makes the write '
  'raise an error; it is never stored as something else.',
  ['inputs', 'programs', 'configurations'],
  'every object graph over every supported object kind, every combination of optional fields, every field value, both byte '
  'orders, both readers',
  'The write tests rewrite a few sample bins and one built bin and mostly compare a textual dump of a few fields; '
  'optional extensions, boundary values, shared or null references and most kinds are never written from scratch.',
  ALLPY + [S + '_ext.pyx', S + '_ext_core.cpp'],
  [('AVBFile.write / write_object', S + 'file.py'), ('walk_references', S + 'core.py'),
   ('per-class write/read methods', 'all modules'), ('AVBIOContext writers', S + 'ioctx.py')],
  [('ref_mapping', 'instance id -> chunk number of the file being written', S + 'file.py')],
  ['AVBFile.write', 'avb.open'])

p('C02', 'Every supported object kind is decoded and encoded per the format layout',
  'For every supported object kind, each encoded field of a well-formed object is delivered under its own attribute name '
  'with exactly the value stored in the file, and optional fields are present exactly when the file has them. Writing an '
  'object that was loaded and not changed reproduces its stored bytes exactly.',
  ['inputs', 'configurations'],
  'every supported kind, every combination of optional sections and list lengths, every field value, both byte orders',
  'test_chunks re-encodes 79 sampled little endian chunks and never looks at what the attributes contain; a reader and writer that swap or '
  'mistype two fields the same way pass it, and most optional sections never occur in the samples.',
  ALLPY, [('per-class read/write methods', 'bin.py, components.py, trackgroups.py, misc.py, essence.py, attributes.py'),
          ('class registry', S + 'utils.py register_class')],
  observe=['avb.open', 'AVBFile.read_object', 'attributes of loaded objects', 'obj.write'])

p('C03', 'The byte order of a file never changes its meaning',
  'The same content stored little endian or big endian opens as the same objects with the same values. Saving a file in the '
  'other byte order and back loses nothing and ends in the same bytes as saving it directly.',
  ['inputs', 'configurations'],
  'every object graph, both byte orders on input and output, any chain of conversions',
  'Only a couple of big endian sample bins exist, and conversions are compared by a shallow dump; values whose byte-swapped form is '
  'plausible (doubles, uuids, mob ids, nested sub-chunks) are not compared.',
  ALLPY, [('AVBIOContext LE/BE method tables', S + 'ioctx.py'), ('hard-coded struct formats and reversed tags', 'misc.py, essence.py, trackgroups.py'),
          ('fast reader selection', S + 'file.py')],
  observe=['avb.open', 'AVBFile.write(byte_order=...)'])

p('C04', 'The native reader and the pure Python reader agree on every input',
  'For any object data, opening a file with the native extension gives exactly what opening it without gives: the same '
  'objects, attributes, values and value types, the same editing behaviour afterwards and the same bytes when saved. Data '
  'one of them refuses, the other refuses too.',
  ['inputs', 'configurations'],
  'every byte string of every kind the native reader handles, well-formed, boundary-valued or corrupted',
  'The same tests run in both modes over well-formed samples only; the two results are never compared with each other, and '
  'no corrupted input is ever given to the native reader.',
  [S + '_ext.pyx', S + '_ext_core.cpp', S + 'file.py', S + 'components.py', S + 'trackgroups.py', S + 'misc.py', S + 'essence.py', S + 'attributes.py'],
  [('READERS table and add_* conversion functions', S + '_ext.pyx'), ('Buffer and read_* functions', S + '_ext_core.cpp')],
  observe=['avb.open(use_ext=True/False)'])

p('C05', 'Malformed or truncated files are refused, never silently misread',
  'A file that is cut short at any byte, is not an AVB file, or has a damaged structural byte (magic, header tag, section tag, extension '
  'number, value type marker, end marker, object size, reference beyond the last object) raises an error when it is opened or when the damaged object is read. '
  'The error leaves the open file usable: undamaged objects (those stored before it, when a size is damaged) still read correctly, the damaged one keeps raising, and editing '
  'and writing still work.',
  ['inputs', 'fault_sequences'],
  'every truncation point and every structural byte of any file, every kind, both byte orders, both readers, any sequence of accesses after the error',
  'No test opens a damaged file; every sample is well-formed.',
  ALLPY + [S + '_ext.pyx', S + '_ext_core.cpp'],
  [('read_assert_tag / iter_ext / assert on trailing data', S + 'ioctx.py, file.py'), ('reading flag reset in finally', S + 'file.py')],
  [('reading', 'suppresses modification tracking while an object is being read', S + 'file.py')],
  ['avb.open', 'AVBFile.read_object', 'attribute access'])

p('C06', 'The native reader is memory safe and resource bounded on any bytes',
  'Whatever bytes an object contains, the native reader never reads outside the object\'s own data, never executes undefined '
  'behaviour and never crashes the process: it returns objects or raises a Python error. The memory it takes stays '
  'proportional to the size of the object\'s data.',
  ['inputs'],
  'every byte string of every kind the native reader handles',
  'The native code is only run on well-formed samples without a sanitizer; lengths and counts taken from the file are never hostile.',
  [S + '_ext_core.cpp', S + '_ext.pyx'],
  [('Buffer read functions', S + '_ext_core.cpp'), ('vector sizing from counts in the data', S + '_ext_core.cpp')],
  observe=['AddressSanitizer/UBSan reports', 'guard pages', 'allocation counters'])

p('C07', 'Every edit made through the API is kept and written',
  'After any sequence of edits - setting an attribute of an object, changing a reference list or an attribute map through their '
  'methods - every later access through any path sees the edited value and a write contains it. This holds whether or not the program kept '
  'references to the objects in between, and whenever garbage collection runs.',
  ['histories', 'programs'],
  'every sequence of loads, edits, dropped references, collections, reloads and writes, both readers',
  'Tests edit objects they hold on to; none drops its references and collects before writing, which is when an unrecorded edit disappears.',
  [S + 'core.py', S + 'file.py', S + 'attributes.py', S + '_ext.pyx'],
  [('mark_modified / add_modified', S + 'core.py, file.py, attributes.py')],
  [('object_cache', 'weak map of loaded objects', S + 'file.py'), ('modified_objects', 'strong map of edited objects', S + 'file.py')],
  ['attribute access after gc', 'AVBFile.write'])

p('C08', 'Every file written is structurally sound',
  'A written file has a correct header and exactly the number of objects it announces, their sizes add up to the file\'s length, every '
  'object reachable from the bin is stored exactly once, every reference is null or points at an object stored earlier in the '
  'file, and the root is the bin, stored last.',
  ['inputs', 'programs', 'configurations'],
  'every object graph including shared, null and deeply nested references, both byte orders, any creator string and save time',
  'Tests only check that the library itself reopens its output; the library does not check counts, order, duplicates or dangling references.',
  [S + 'file.py', S + 'core.py', S + 'ioctx.py'],
  [('walk_references post order', S + 'core.py'), ('AVBFile.write', S + 'file.py'), ('write_object_ref via ref_mapping', S + 'ioctx.py')],
  [('ref_mapping', 'instance id -> chunk number', S + 'file.py')], ['bytes of the written file'])

p('C09', 'Failed or repeated writes damage neither memory nor the target file',
  'A write that raises - because a value cannot be stored, an object belongs to another file, or the disk fails - leaves what '
  'is in memory unchanged and an existing target file untouched when the failure comes from the content; after the cause is '
  'removed a write succeeds and is complete. Writing never changes the content in memory: writing twice gives identical '
  'files, and an object of another open file is always refused, never stored.',
  ['fault_sequences', 'histories', 'crash_points'],
  'every point of a write at which storing a value or the underlying I/O can fail, followed by any further operations and writes, including writing over the file that is open',
  'No test makes a write fail, writes twice, or writes over its own source.',
  [S + 'file.py', S + 'ioctx.py', S + 'core.py'],
  [('octx set and reset in write', S + 'file.py'), ('write_object root check', S + 'file.py')],
  [('octx', 'context of the write in progress', S + 'file.py')], ['AVBFile.write', 'target file bytes'])

p('C10', 'A copy is complete and shares nothing with its original',
  'Copying an object, within a file or into another open file, gives an object graph equal to the original field by field, '
  'including which optional fields are present. Original and copy share no mutable part: no edit of one is ever visible in the other, and every copied object belongs to '
  'the destination file.',
  ['inputs', 'programs'],
  'every object kind and graph, any combination of optional fields, any later edits on either side',
  'Two tests copy parts of sample files and check that they can be written; they never edit one side and look at the other.',
  [S + 'core.py', S + 'attributes.py', S + 'misc.py', S + 'trackgroups.py', S + 'bin.py'],
  [('AVBObject.copy', S + 'core.py'), ('AVBRefList.copy', S + 'core.py'), ('Attributes.copy', S + 'attributes.py')],
  observe=['obj.copy(root)', 'attributes of both graphs'])

p('C11', 'New objects are valid, independent and have identities of their own',
  'A newly created object holds the values given to its constructor and documented defaults, can be written once its required fields are set, and has an identity no other '
  'object of its file has, whatever was loaded or created before. Two new objects of the same kind, or two parts of one new object, never share '
  'mutable state, so editing one does not change another, nor objects created later, nor objects in other files.',
  ['programs', 'histories'],
  'every creatable kind, every constructor argument, any interleaving of creating, loading and editing in any number of files',
  'Tests create a few objects once each; shared default values only show when a second object is made after the first was edited.',
  [S + 'file.py', S + 'core.py', S + 'bin.py', S + 'components.py', S + 'trackgroups.py', S + 'misc.py', S + 'essence.py'],
  [('AVBFactory.from_name', S + 'file.py'), ('AVBObject.__init__ defaults', S + 'core.py'), ('constructors', 'all modules')],
  [('next_object_id', 'last identity handed out', S + 'file.py')], ['file.create.<Kind>(...)'])

p('C12', 'Lazy loading is invisible: access order and collection change nothing',
  'What a program sees of a file does not depend on the order, number or path of its accesses, nor on garbage collection '
  'between them. While a loaded object is alive every path to it gives the same object, and only reading never changes what a later write produces or '
  'marks anything as edited.',
  ['histories', 'schedules'],
  'every order of visiting references, lists, attribute maps and the object table, with objects dropped and collected at any point, both readers',
  'Tests walk each file once in one order and keep everything alive.',
  [S + 'file.py', S + 'core.py', S + 'utils.py'],
  [('AVBFile.read_object cache', S + 'file.py'), ('AVBObjectRef.value', S + 'utils.py'), ('deref in AVBPropertyData/AVBRefList', S + 'core.py')],
  [('object_cache', 'weak map of live loaded objects', S + 'file.py'), ('reading', 'set while an object is being read', S + 'file.py')],
  ['attribute access', 'AVBFile.read_object', 'AVBFile.write'])

p('C13', 'Reference lists and attribute maps behave like Python lists and dicts',
  'Every operation of a reference list (indexing, slices, iteration, membership, index, count, append, extend, +=, insert, remove, pop, '
  'clear, sort, reverse, assignment, deletion) and of an attribute map has the result and effect it has on an '
  'ordinary list or dict of the objects, whether entries are loaded or still unread, and never exposes an internal placeholder instead '
  'of an object.',
  ['programs', 'histories'],
  'every sequence of operations on lists and maps of loaded, unloaded, null and new entries, in loaded and new files, both readers',
  'Tests append and iterate; the other operations are not exercised.',
  [S + 'core.py', S + 'attributes.py', S + 'utils.py'],
  [('AVBRefList methods', S + 'core.py'), ('AVBPropertyData / Attributes methods', S + 'core.py, attributes.py')],
  observe=['list and dict operations', 'AVBFile.write'])

p('C14', 'Strings, numbers, rates, dates and uuids survive encoding exactly',
  'Every scalar the format can hold - a Mac Roman or UTF-8 string (up to the length limit), an integer of each width, a double, a decimal rate, '
  'a date to the second, a colour, a rectangle, a uuid - decodes to the value that was encoded, in both byte orders and in every time zone. A frame '
  'rate is stored as its nearest decimal representation and reads back as the same rate; a value that does not fit is refused.',
  ['inputs', 'configurations'],
  'every value of each scalar type, both byte orders, every time zone including daylight saving changes',
  'Tests hit a handful of strings and rates in the machine\'s time zone.',
  [S + 'ioctx.py', S + 'utils.py'],
  [('read_*/write_* pairs', S + 'ioctx.py')], observe=['AVBIOContext methods', 'values of written and reopened files'])

p('C15', 'All representations of a mob id denote the same id',
  'The bytes, urn string, dictionary, integer and individual parts of a mob id all determine each other: '
  'building an id from any of them and reading any other gives consistent results, and setting one part changes that part and nothing else. Equal ids compare and hash equal, '
  'different ids compare different, and newly generated ids are valid and distinct.',
  ['inputs', 'programs'],
  'every 32-byte value, every sequence of part assignments, every accepted text form',
  'Tests print a few ids; no representation is parsed back and compared over the value space.',
  [S + 'mobid.py', S + 'utils.py', S + 'ioctx.py'],
  [('MobID properties and urn parsing', S + 'mobid.py'), ('read_mob_id/write_mob_id', S + 'ioctx.py')],
  observe=['MobID public properties'])

p('C16', 'Mob queries return exactly the mobs that match',
  'Finding a mob by id returns the mob of the bin that has that id now, and nothing if none has; the listings by category (all mobs, '
  'top level, composition, master) contain exactly the bin\'s mobs of that category in bin order; '
  'the dependants of a mob are exactly the mobs reachable through its source clips, each once and never the mob itself, dependencies first, even when mobs refer to each other in a cycle.',
  ['histories', 'inputs'],
  'every bin content, reference structure (missing, shared, cyclic) and sequence of additions, removals and id changes between queries',
  'Tests query unmodified sample bins.',
  [S + 'bin.py', S + 'trackgroups.py', S + 'components.py'],
  [('find_by_mob_id and its dictionary', S + 'bin.py'), ('toplevel/composition/master filters', S + 'bin.py'), ('Composition.dependant_mobs', S + 'trackgroups.py'), ('mob property of source clips', S + 'components.py')],
  [('mob_dict', 'cache of mobs by id', S + 'bin.py')], ['content.find_by_mob_id', 'content.*mobs()', 'mob.dependant_mobs()'])

p('C17', 'Sequence positions, timing and lookups are consistent',
  'The positions of a sequence\'s components are the running sums of the lengths before them with each transition overlapping '
  'its neighbours by its length, and its own length is their total less these overlaps; the component found at an edit time is the one whose interval contains it, for every time '
  'and also after edits.',
  ['inputs', 'histories'],
  'every mix of clips, fillers and transitions with any lengths, every query time, any edits in between',
  'Tests query a few times of sample sequences.',
  [S + 'components.py'],
  [('Sequence.positions / nearest_index / nearest_component_at_time', S + 'components.py')],
  observe=['Sequence.positions()', 'nearest_index', 'nearest_component_at_time'])

p('C18', 'Animation and retime curves evaluate as their control points say',
  'The value of an animated parameter is the control point\'s value at its time, follows its interpolation (constant, linear, cubic, bezier) '
  'between neighbouring points, and holds the first and last point\'s value outside; retime curves integrate the speed curve. Evaluation is defined (never an internal error) for every time and every set of '
  'control points with increasing times, and never depends on earlier evaluations.',
  ['inputs', 'histories'],
  'every number and placement of control points, each interpolation kind, every evaluation time including before, between, on and after points',
  'Retime tests sample a few effects of sample files against frame numbers.',
  [S + 'interpolation.py', S + 'misc.py', S + 'trackgroups.py'],
  [('interpolation functions', S + 'interpolation.py'), ('ParamControl value_at / speed map', S + 'components.py, trackgroups.py')],
  observe=['value_at', 'integrate'])

p('C19', 'The object table gives every object of the file exactly once',
  'Listing a file\'s chunks gives each stored object once, in file order, with its kind, position, size and data; listing objects by '
  'kind gives exactly the objects of these kinds; reading an object by number gives the object stored there. It makes no difference whether the '
  'file was opened by path or from a file-like object, nor which reads happened before, and closing releases the file.',
  ['inputs', 'histories'],
  'every file, any subset of kinds, any interleaving of table reads with object reads, paths and file-like objects',
  'Tests iterate the table of the sample files in one pass without comparing it to the file\'s bytes.',
  [S + 'file.py', S + 'utils.py'],
  [('object_positions built on open', S + 'file.py'), ('read_chunk, chunks, iter_class_ids', S + 'file.py'), ('close and context manager', S + 'file.py')],
  [('object_positions', 'offset of every chunk', S + 'file.py')], ['AVBFile.chunks', 'iter_class_ids', 'read_object'])

p('C20', 'Named views always agree with the stored codes behind them',
  'Every derived, human-readable view of an object (mob type, usage, media kind, codes by name, value type names, the object\'s text form) '
  'is determined by the stored value: it is correct for every code the format defines, defined or refused for every other code, '
  'and where it can be set by name (media kind), reading it back, before and after a save, gives the same name.',
  ['inputs'],
  'every code value of each coded field, known and unknown, loaded and newly set',
  'The samples contain only a few of the codes and tests set none by name.',
  [S + 'trackgroups.py', S + 'components.py', S + 'essence.py', S + 'misc.py', S + 'bin.py', S + 'core.py'],
  [('mob_type / usage / media_kind properties', S + 'trackgroups.py, components.py'), ('lookup tables', 'essence.py, misc.py')],
  observe=['mob_type', 'usage', 'media_kind', 'repr'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
p('C21', 'Files that are open at the same time do not affect each other',
  'Any number of files can be open at once, created, loaded or the same file opened several times, with any readers and byte orders. Whatever is '
  'done with one of them - reading, editing, writing, failing, closing - gives the same results as if it were the only one, in whatever '
  'way their operations are interleaved: one after the other, one within another, or each file in a thread of its own.',
  ['schedules', 'histories'],
  'every interleaving, at any point, of any operations on any number of files that share no objects',
  'The tests use files one after the other in one thread; the only ones with two files copy between them.',
  [S + 'file.py', S + 'core.py', S + 'ioctx.py', S + 'utils.py', S + 'mobid.py'],
  [('state of a file: reading, octx, ref_mapping, object_cache, modified_objects, create', S + 'file.py'),
   ('class registries and defaults shared by all files', S + 'utils.py, core.py')],
  [('reading', 'an object of this file is being read', S + 'file.py'), ('octx', 'context of the write in progress', S + 'file.py')],
  ['AVBFile', 'attributes of objects', 'AVBFile.write'])

with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
