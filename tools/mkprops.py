"""Writes /verif/properties.jsonl (the single source for ids, titles, statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files,
                          'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                          'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
                          'observe_at': list(observe),
                          'hook_needed': None}})

BK = ['dsch/backends/hdf5.py', 'dsch/backends/npz.py', 'dsch/backends/mat.py']
ALLB = BK + ['dsch/backends/inmem.py']

p('C01', 'Values survive save and reload unchanged',
  'For every file backend (HDF5, npz, mat) and every kind of data node, a valid value that is assigned, saved and loaded again comes back with the same type, dtype, shape and content: numbers bit for bit (NaN, infinities, signed zero, integer extremes, complex parts), text for every character except NUL, every byte string, dates and times down to the microsecond. This holds for a node on its own at top level and for a node nested in compilations and lists.',
  ['inputs', 'configurations'],
  'all valid (schema item node, value) pairs: native dtypes bool, (u)int8..64, float16/32/64, complex64/128; array shapes including empty, single-element and singleton dimensions; all str without NUL/surrogates; all bytes; all naive date/time values; times the three file backends, at top level or nested',
  'tests store two fixed values per node type (e.g. int32 [23, 42], "spam"), never empty, extreme, unicode, binary, singleton-dimension or non-int32 values, and never Bytes in files',
  BK, [('per-type replace/_value conversions', 'dsch/backends/hdf5.py, dsch/backends/npz.py'), ('mat load conversions', 'dsch/backends/mat.py')],
  [('file content', 'stored representation of each node', 'backend Storage._save/_load')],
  ['node.value before save vs node.value after dsch.load of a byte snapshot of the file'])

p('C02', 'Structure, item order and emptiness survive save and reload',
  'For every schema built by nesting compilations and lists, a saved storage loads with the same fields, the same list lengths, every list item at its original position, every value in the field it was stored in, and exactly the same nodes empty. This holds for arbitrary nesting, partially filled compilations, empty list items, empty lists, and lists of any length.',
  ['inputs', 'programs', 'configurations'],
  'all nested Compilation/List schemas with fields named by identifiers which are not attributes of the data nodes (mat: ASCII, letter first, at most 63 characters), all patterns of filled and empty nodes, all list lengths, times the three file backends',
  'tests use one fixed schema with every field filled and lists of 0, 1, 2 or 25 scalars; partially filled or empty items inside lists are never stored',
  BK + ['dsch/data.py'], [('dotted-key flattening', 'dsch/backends/npz.py:_flatten_dotted/_inflate_dotted'), ('item_N naming', 'List.append/_init_from_storage'), ('struct/cell mapping', 'dsch/backends/mat.py')],
  [('list items', 'position in list', 'data.List')],
  ['recursive walk over the data nodes before save and after load'])

p('C03', 'A load shows exactly the state of the last save',
  'After any history of edits, saves and reloads on one file, loading the file yields exactly the data the storage held at the last save: nothing that was replaced, shortened, cleared or removed before that save reappears, and nothing written before it is missing. For the npz and mat backends, edits made after the last save never reach the file at all.',
  ['histories', 'configurations'],
  'all sequences of assign/clear/append/replace/element-assign/resize/save/force-save/reload operations over one file, on the three file backends',
  'tests perform one save and one load per file; no test clears, shrinks, re-saves and loads again',
  BK + ['dsch/storage.py', 'dsch/data.py'], [('whole-file rewrite on save', 'dsch/backends/npz.py Storage._save, mat.py'), ('dataset/group deletion', 'dsch/backends/hdf5.py clear/replace')],
  [], ['state snapshot taken at each save vs the state loaded from a copy of the file'])

p('C04', 'Data nodes behave alike on every backend: reads return the last write',
  'On every backend (HDF5, npz, mat, in-memory), any sequence of operations on the data tree has the effect a plain in-memory model predicts: reading a node returns the last valid value written, clear makes it empty, append adds at the end, replacing a list leaves exactly the new items, replacing a compilation changes only the named fields, assigning array elements changes only those, and resizing an array keeps the overlapping part and zero-fills the rest, but never changes the number of dimensions. No operation changes any other node, or the values handed over. The parent and schema_node of a node are always the node containing it (None at the top) and its own part of the schema. (Values handed over are valid, and the caller does not modify them afterwards.)',
  ['histories', 'inputs', 'configurations'],
  'all sequences of public data-node operations (value, replace, clear, append, indexing, element assignment, resize, load_from) with valid arguments on all schemas and all four backends, freshly created or loaded',
  'tests exercise each operation once from a fresh node with one value; no test overwrites a stored value by a longer or shorter one, or checks that siblings stay untouched',
  ['dsch/data.py'] + ALLB, [('replace/clear/append', 'dsch/data.py and the backend modules')],
  [], ['full observation of the tree after every operation vs the reference model'])

p('C05', 'Item validation accepts exactly the values that meet the constraints',
  'Validating a value against an item schema node succeeds silently if and only if the value has the required type and satisfies every configured constraint (dtype, number of dimensions, per-dimension minimum and maximum shape, minimum and maximum value of every element, minimum and maximum length, all bounds inclusive); otherwise a ValidationError is raised that reports the violated constraint. A bound of zero is a bound, and an unset bound (or an unset dimension of a shape bound) constrains nothing.',
  ['inputs', 'configurations'],
  'all item schema nodes with any combination of constraints, and all values of any type (apart from NaN against value bounds, where nothing else violates them, and from instances of subclasses of the required type), in particular those at, just inside and just outside each bound',
  'tests try one passing and one failing value per constraint, each constraint alone',
  ['dsch/schema.py', 'dsch/data.py'], [('validate methods', 'dsch/schema.py')],
  [], ['schema_node.validate(value), data node validate()'])

p('C06', 'Container validation finds every invalid node and names it',
  'Validating a compilation, list or whole storage succeeds if and only if every non-empty item below it is valid and every list below it respects its length bounds. Otherwise the error raised identifies, through its path, message and original cause, a node that really is invalid; empty nodes are never reported.',
  ['inputs', 'programs'],
  'all nested schemas with constraints, all fillings with any set of invalid nodes at any depth and position, on all four backends',
  'tests cover a single hand-written path (spam[1].eggs[2])',
  ['dsch/data.py', 'dsch/exceptions.py'], [('recursive validate', 'dsch/data.py Compilation.validate, List.validate'), ('node_path/original_cause', 'dsch/exceptions.py SubnodeValidationError')],
  [], ['storage.validate(), exception node_path(), original_cause(), str()'])

p('C07', 'Dependent arrays must match their independent variables',
  'An array that depends on other arrays validates only if, for each dimension that names an independent variable, its size in that dimension equals the number of elements of that variable; dimensions declared without a variable (None), or whose variable has no value (is empty), are not constrained, whatever their position. The rule is applied among the fields of the same compilation wherever that compilation sits (also inside lists), always against the current values, and a mismatch is reported as a validation error naming the dependent array.',
  ['inputs', 'configurations', 'histories'],
  'all arrays of 1..4 dimensions with depends_on given as a string or any tuple of names and None, all sizes of dependent and independent arrays, edits in any order, all four backends',
  'tests cover one 1-d data-node case that passes and one 2-d schema-level mismatch; None entries and re-validation after edits are never tried',
  ['dsch/schema.py', 'dsch/data.py'], [('independent value lookup', 'dsch/data.py Array.validate'), ('size comparison', 'dsch/schema.py Array.validate')],
  [], ['data node validate()'])

p('C08', 'Invalid data is never saved or loaded unless forced',
  'Saving a storage without force fails with the validation error whenever its data is invalid, and for npz and mat then leaves the file exactly as it was; loading a file whose content violates its schema fails likewise. With force the very same data is saved or loaded as it is, and valid data is never refused.',
  ['inputs', 'histories', 'configurations'],
  'all schemas, all valid and invalid fillings, save/load with and without force, file existing before or not, the three file backends',
  'one test loads one over-long string; a refused save, and the file after it, is never checked',
  ['dsch/storage.py', 'dsch/frontend.py'], [('validate before _save', 'dsch/storage.py FileStorage.save'), ('validate after load', 'dsch/frontend.py load')],
  [], ['exception or success of save/load, bytes of the file before and after'])

p('C09', 'A required schema is enforced on load',
  'Loading with a required schema or required schema hash succeeds if and only if the schema stored in the file is that schema, and otherwise raises InvalidSchemaError without changing the stored data, whether or not force is given. Both requirements are enforced when both are given.',
  ['inputs', 'configurations'],
  'all pairs of stored and required schemas (equal, equal up to field order, differing in any single detail at any depth), as schema object or hash or both, with and without force, the three file backends',
  'tests only load with the matching schema; a mismatch in load is never tested',
  ['dsch/frontend.py', 'dsch/schema.py'], [('hash comparison', 'dsch/frontend.py load')], [],
  ['dsch.load outcome, stored data afterwards'])

p('C10', 'Schemas survive serialisation',
  'Every schema, turned into its dict or JSON form and back (directly, or by saving and loading a storage of any file backend), yields an equal schema with the same hash, the same node types, field names, constraints, units and options, that accepts and rejects exactly the same data. A dict with an unknown or mismatched node type is rejected.',
  ['inputs', 'programs', 'configurations'],
  'all schemas, nested to any depth, with every configuration option set or unset (dtype given as str, numpy dtype or type; shapes as tuples; negative, zero, fractional and infinite bounds; unicode units)',
  'tests convert one hand-written dict per node type, not through JSON, and never compare the result with ==',
  ['dsch/schema.py', 'dsch/backends/hdf5.py', 'dsch/backends/npz.py', 'dsch/backends/mat.py'],
  [('to_dict/from_dict/to_json', 'dsch/schema.py'), ('schema embedded in file', 'backend Storage._load/_save')], [],
  ['schema.node_from_json(node.to_json()), loaded storage.schema_node'])

p('C11', 'Schema hash and equality identify the schema',
  'A schema node\'s hash is the SHA-256 of its canonical (key-sorted) JSON form, so two schemas have the same hash, and compare equal, if and only if they have the same node types, field names, options and nesting. Neither depends on the order in which fields were defined, on the process, the backend, or earlier use of the schema; comparing with something that is not a schema is simply unequal.',
  ['inputs', 'programs', 'histories'],
  'all pairs of schemas, in particular pairs differing in one option anywhere in the tree, and all orders of field definition, in one or several processes with different string-hash seeds',
  'tests check only that the hash is 64 characters long and one constant for Bool(); the equality test is shadowed by a second function of the same name',
  ['dsch/schema.py', 'dsch/storage.py'], [('hash/to_json/__eq__', 'dsch/schema.py SchemaNode'), ('schema_hash', 'dsch/storage.py')], [],
  ['node.hash(), node == other, storage.schema_hash()'])

p('C12', 'Copying a storage reproduces schema and data on any backend',
  'Creating a storage from another one (create_from, save_as) or loading a node from another node (load_from) gives the destination the source\'s schema and exactly its data: same values, same list lengths and order, same empty nodes, whatever the destination held before and whichever two backends are involved. The source is left unchanged.',
  ['inputs', 'histories', 'configurations'],
  'all schemas, all fillings including partially empty ones, all ordered pairs of the four backends, fresh and already filled destinations, whole storages and sub-nodes',
  'tests copy a single filled Bool, or fully filled two-field compilations and two-item lists, into fresh destinations only',
  ['dsch/frontend.py', 'dsch/storage.py', 'dsch/data.py'], [('create_from/save_as', 'dsch/frontend.py, dsch/storage.py'), ('load_from', 'dsch/data.py')], [],
  ['full observation of source before/after and of destination'])

p('C13', 'Copies are independent and incompatible nodes are refused',
  'After copying between storages or nodes, editing either side (including array elements in place) never changes the other. Loading a node from one with a different schema raises IncompatibleNodesError and leaves the destination\'s data untouched.',
  ['inputs', 'histories', 'configurations'],
  'all schemas and fillings, all ordered pairs of backends, any edits on either side after the copy, all pairs of differing schemas',
  'tests never edit after copying, and check the refusal only for one pair without looking at the destination',
  ['dsch/data.py', 'dsch/frontend.py'], [('load_from', 'dsch/data.py ItemNode/Compilation/List.load_from')], [],
  ['observation of both sides after each edit'])

p('C14', 'Empty and complete reflect exactly which data is present',
  'An item node is empty until it has a value and after it is cleared, and complete exactly when not empty; a compilation is empty if and only if all its fields are empty and complete if and only if all its non-optional fields are complete; a list is empty if and only if all its items are and complete if and only if all of them are complete (so a list without items is both). A storage reports the completeness of its top-level node, and reading the value of an empty item raises NodeEmptyError.',
  ['inputs', 'histories', 'configurations'],
  'all nested schemas with any optional fields, all histories of filling and clearing, falsy values (0, False, empty text, empty bytes, empty arrays), four backends, before and after reload',
  'tests fill two fields of one compilation in one order, without falsy values or nesting',
  ['dsch/data.py', 'dsch/storage.py'], [('empty/complete properties', 'dsch/data.py'), ('Storage.complete', 'dsch/storage.py')], [],
  ['.empty, .complete, .value of every node, storage.complete'])

p('C15', 'Exported data trees and printed trees show exactly the stored data',
  'data_tree() returns nested dicts and lists with exactly the stored values, leaving out empty items, or containing None for each of them when empty ones are included; feeding a tree with nothing left out back to replace() on a fresh node reproduces the data. The printed tree of any node shows every field and list item below it exactly once and in order, with the item\'s type and its value and unit, its array shape, or an <empty> mark, and printing valid data never fails.',
  ['inputs', 'programs', 'configurations'],
  'all nested schemas and fillings, four backends, with and without empty nodes',
  'tests check data_tree on two-field compilations and short lists; the printed tree is not tested at all',
  ['dsch/data.py'], [('data_tree/node_tree/__repr__', 'dsch/data.py')], [],
  ['node.data_tree(), node.data_tree(include_empty=True), repr(node)'])

p('C16', 'Data nodes cannot be overwritten by accident',
  'Assigning to a field of a compilation or to an item of a list, instead of to its value, or to any other public attribute of a compilation, always raises ResetSubnodeError naming it, whatever the name, index, assigned value or backend, and leaves all data and nodes unchanged. Every field named in the schema is reachable as an attribute and listed by dir(); names which are neither in the schema nor attributes of the node class never yield or create a field.',
  ['inputs', 'configurations', 'histories'],
  'all schemas, all field names and indices (existing or not, negative, slices), all assigned values, four backends',
  'tests assign one unknown name and one index',
  ['dsch/data.py', 'dsch/exceptions.py'], [('__setattr__/__setitem__/__getattr__/__dir__', 'dsch/data.py')], [],
  ['exception type, observation of the tree before and after'])

p('C17', 'Creating never overwrites, loading never creates or alters files',
  'Creating a storage at a path that exists raises FileExistsError and leaves that file as it is; loading a path that does not exist raises FileNotFoundError and creates nothing; loading never changes the stored data, nor any file that is no storage. A saved storage is stored at exactly the given path and nowhere else, with the backend chosen explicitly or by the file extension (.h5/.hdf5, .npz, .mat, ::inmem::), and any other path without explicit backend is refused without touching the file system.',
  ['inputs', 'histories', 'configurations'],
  'all paths (any extension, dots, spaces, unicode, relative and absolute), all pre-existing files of any content, all backends explicit or detected',
  'tests check that an exception is raised for one path per backend, but not what happens to the files',
  ['dsch/storage.py', 'dsch/frontend.py'] + BK, [('existence checks', 'dsch/storage.py FileStorage.__init__'), ('_autodetect_backend', 'dsch/frontend.py')], [],
  ['directory listing and file bytes before and after, exception type'])

p('C18', 'PseudoStorage opens, checks, saves and closes consistently',
  'Given a path, a PseudoStorage loads the storage there or creates a new one with the desired schema, given a data node it uses that node; it is accepted only if its schema is the desired one or one of the alternatives (given as schemas or hashes), otherwise InvalidSchemaError is raised and nothing is left open or changed. While open it exposes the data, the managed storage (none for a node) and the actual schema; on close, or on leaving its context even by an exception, a managed storage is saved and all three become unavailable, after which it can be opened again; opening it twice is refused.',
  ['histories', 'inputs', 'configurations'],
  'all sequences of open/close/enter/exit/edit over one PseudoStorage, path or node, existing or new, deferred or not, with any set of alternatives, four backends',
  'tests run open and close once and never check that closing saved the data or that a failed open leaves things untouched',
  ['dsch/frontend.py'], [('open/close/_verify_schema', 'dsch/frontend.py PseudoStorage')],
  [('data/storage/schema_node', 'open state', 'dsch/frontend.py PseudoStorage')],
  ['attributes after each call, content of the file afterwards'])

p('C19', 'Saved data survives a crash of the process',
  'Once save() has returned, the data it saved is in the file: if the process is killed at that moment, or for npz and mat at any later moment outside a save, loading the file in another process yields exactly the data as of the last completed save.',
  ['crash_points', 'histories', 'configurations'],
  'all histories of edits and saves, all kill points after a completed save (HDF5: directly after it; npz and mat: also after any further unsaved edits), three file backends',
  'tests read files back in the process that wrote them, where unflushed buffers are shared with the reader',
  ['dsch/storage.py'] + BK, [('flush', 'dsch/backends/hdf5.py Storage._save'), ('file rewrite', 'dsch/backends/npz.py, mat.py Storage._save')], [],
  ['state loaded by another process after SIGKILL vs journal of the writer'])

p('C20', 'Set-on-create fields get the current date or time exactly at creation',
  'A date, time or date-time field with set_on_create holds the moment its node was created, also in list items and nested compilations and on every backend, and a field without it starts empty. The value is never changed afterwards by saving, loading or copying: a reloaded or copied field keeps the original value, and one that was cleared stays empty.',
  ['histories', 'inputs', 'configurations'],
  'all nestings of Date/Time/DateTime nodes with and without set_on_create, all histories of create/append/clear/assign/save/load/copy, four backends, at different wall-clock times',
  'tests create one node per type and never save, load, copy or clear it',
  ['dsch/data.py'] + ALLB, [('_init_new', 'dsch/data.py Date/DateTime/Time')], [],
  ['node values against a clock under the harness\'s control'])

p('C21', 'Files hold the full data and schema in their native format',
  'A saved file can be read without dsch: HDF5 files have the schema JSON in attribute dsch_schema and one group or dataset per node (fields by name, list items as item_N, a non-compilation top level as dsch_data), npz files have _schema and dotted keys (non-compilation top level: data), and mat files have schema and data (compilations as structs, lists as cell arrays). Every non-empty item is present there with its value (numbers in their own dtype, text as text, bytes as binary data, dates and times as their integer components), and no empty item is.',
  ['inputs', 'programs', 'configurations'],
  'all schemas and fillings, three file backends',
  'tests look into files holding one or two Bools',
  BK, [('file layout', 'backend Storage._new/_save')], [],
  ['h5py, numpy.load and scipy.io.loadmat of the saved file'])

p('C22', 'Files written by the current release stay loadable',
  'Files written by the pinned release (a fixed corpus of HDF5, npz and mat files, with their recorded schemas, schema hashes and data) load with exactly the recorded schema, hash, structure and values, validate, and can be edited and saved again. Compatibility holds for every node type, nesting and filling in the corpus.',
  ['inputs', 'histories', 'configurations'],
  'all files that the pinned release could write and read back; sampled by a recorded corpus of generated storages',
  'tests only read files that the code under test has just written, so a consistent change of format goes unnoticed',
  BK + ['dsch/schema.py'], [('file layout and type conversions', 'backend modules'), ('schema JSON', 'dsch/schema.py')], [],
  ['dsch.load of the recorded files vs the recorded observations'])

p('C23', 'A rejected assignment leaves the data as it was',
  'If assigning or replacing an item\'s value, or assigning array elements, resizing an array or loading from an incompatible node raises an exception (wrong type, not convertible, out of range of the dtype, refused by the storage engine), the node keeps its previous value or stays empty, all other nodes keep theirs, and the storage stays usable and savable with that data. Such an operation is never ignored silently: element assignments fail whenever NumPy refuses them.',
  ['inputs', 'histories', 'fault_sequences', 'configurations'],
  'all item node types, all previous states, all values rejected on assignment, four backends, followed by save and reload',
  'tests only assign acceptable values',
  ALLB + ['dsch/data.py'], [('replace', 'backend modules')], [],
  ['observation before and after the failing call, and after save and reload'])

p('C24', 'Storages do not interfere with each other or with their schemas',
  'Operations on one storage never change another storage, even if both were built from the same schema object or loaded from the same file, use the same or different backends, are used alternately or from different threads (one thread per storage). Using a schema object for any number of storages never changes the schema.',
  ['histories', 'schedules', 'configurations'],
  'all interleavings of operation sequences on two or more storages sharing schema objects, sequential and threaded, four backends',
  'tests use one storage at a time and never look at the schema afterwards',
  ['dsch/data.py', 'dsch/schema.py', 'dsch/storage.py'] + ALLB, [('per-instance state', 'dsch/data.py node constructors')], [],
  ['observation of all storages and schema hashes after each step'])

p('C25', 'Files are open only while they are needed',
  'npz and mat files are open only during the operations that read or write them, and an HDF5 file only as long as its storage or one of its data nodes is in use: once they are no longer referenced (and collected), or the PseudoStorage managing them is closed, no file stays open. The same holds after operations that fail: a refused load, create, save or PseudoStorage, whatever the reason, leaves no file open.',
  ['histories', 'inputs', 'configurations'],
  'all sequences of creating, loading, saving, copying, dropping, opening and closing, succeeding or failing, of any number of storages, three file backends',
  'tests never look at open descriptors, and each test ends before leaked ones matter',
  ['dsch/storage.py', 'dsch/frontend.py'] + BK, [('_load/_save', 'backend Storage'), ('close/_verify_schema', 'dsch/frontend.py PseudoStorage')], [],
  ['/proc/self/fd after each step'])

p('C26', 'A save that cannot be written is reported and loses nothing in memory',
  'If the file cannot be written completely (no space, file size limit, missing directory, a directory at that path), save() and closing a PseudoStorage raise an exception, unless the file nevertheless holds exactly the data. The data in memory stay exactly as they were, and for npz and mat saving again once the obstacle is gone stores them completely.',
  ['fault_sequences', 'inputs', 'crash_points', 'configurations'],
  'all write failures at any byte of the file, all storages and data, first and repeated saves, direct, forced or through a PseudoStorage; for HDF5 only the report',
  'tests save to a healthy temporary directory only',
  ['dsch/storage.py', 'dsch/frontend.py'] + BK, [('save/_save', 'dsch/storage.py, backend Storage'), ('close', 'dsch/frontend.py PseudoStorage')], [],
  ['exception or file content after a save under RLIMIT_FSIZE, /dev/full, missing directories; observation of the data'])

p('C27', 'A cut-off or damaged file is never taken for complete data',
  'Loading a file that was cut off at any point (npz: also one whose entries have changed bits or lost parts) either raises an exception or shows exactly the saved schema and data. It never succeeds with some of the data missing, empty or altered, with or without force. (A mat file cut off between its two variables cannot be told from one without data, and loads as an empty storage.)',
  ['crash_points', 'inputs', 'configurations'],
  'all saved files of the three file backends, all cut points, for npz all changes of bytes within the entries',
  'tests load intact files only',
  BK + ['dsch/storage.py'], [('_load', 'backend Storage._load, Compilation/List _init_from_storage')], [],
  ['exception or observation of the damaged file vs the saved data'])

p('C28', 'Looking at data never changes it',
  'Reading, displaying and checking data (values, array elements, list items, iteration, len, dir, repr, data_tree, node_tree, validate, complete, empty, schema hash and JSON, comparison of schemas) changes neither the data, nor the schema, nor any file, and gives the same result again as long as nothing is edited, also on invalid data. Dicts and lists returned (trees, slices, dir) belong to the caller, who may change them without effect on the data.',
  ['histories', 'inputs', 'configurations'],
  'all sequences of looks at all nodes of all storages, valid or not, saved or not, four backends',
  'tests look once, right before the test ends',
  ['dsch/data.py', 'dsch/schema.py', 'dsch/storage.py'] + ALLB, [('data_tree/node_tree/validate/complete/empty', 'dsch/data.py'), ('hash/to_json', 'dsch/schema.py')], [],
  ['observation, schema JSON and file bytes after each look; results of repeated looks'])
p('C29', 'Failed operations leave a consistent and usable storage',
  'When append, replace or load_from of a List or Compilation raises (because a value somewhere inside is rejected, a field is unknown, an iterator fails, the user interrupts, or the HDF5 engine cannot store any more), nothing outside the List or Compilation has changed, earlier items of an appended List and fields not named in a replace() are as before, at most one item was added by a failing append, and a refused load_from or a failing lookup changes nothing at all. Whatever is then shown is the actual state: all following edits, appends, validation, completeness checks, saves and reloads act on exactly that state.',
  ['faults', 'histories', 'inputs'],
  'all failing container operations, failing at any point, between any other operations, on four backends',
  'tests check that wrong values raise, not what a half-finished operation leaves behind',
  ['dsch/data.py'] + ALLB, [('Compilation.replace, List.append, List.replace, load_from', 'dsch/data.py')], [],
  ['whole-tree state before and after each failure, and model agreement in the history that follows'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
