"""The storage properties (C..): text for properties.jsonl and MANIFEST."""
COLL = 'citrine/storage/collection.py'
GRP = 'citrine/storage/group.py'
CONT = 'citrine/storage/container.py'
UTIL = 'citrine/storage/utils.py'
PERS = 'citrine/persistence.py'
CDB = 'citrine/database/containerdb.py'
TRANS = 'citrine/storage/transaction.py'
CCON = 'citrine/connection/container_connection.py'
GCON = 'citrine/connection/group_connection.py'
CLI = 'citrine/client/container_client.py'

PROPS = [
 dict(id='C01', title='A storage collection is an ordered map',
  statement='For any sequence of insertions, updates, default-setting, removals, pops and clears, a storage collection answers every lookup, membership test, view, range view, minimum/maximum key and value-ordered view exactly as an ordered dictionary that received the same operations. Values that are falsy (0, empty text, empty list, False) and empty-string keys are stored and found like any others, and removing from an empty collection or an absent key raises KeyError and changes nothing.',
  over=['inputs', 'histories'], text='every key/value and every sequence of map operations on a collection',
  why='Unit tests call each method once on two or three keys; the guarantee is over every history, including falsy values, bulk sizes that split tree buckets and removals after updates.',
  files=[COLL], mech=[('tree-backed map operations', COLL + ': Collection')],
  observe=['return values and views of the collection']),
 dict(id='C02', title='Strict mode is a hard limit; refusals change nothing',
  statement='While strict, a collection never holds more entries than its limit: an operation that would exceed it raises a capacity error and leaves every stored entry as it was, while rewriting an existing key of a full collection is always accepted. Groups and containers built from strict collections give the same guarantee for single and bulk writes. When not strict, no write is ever refused for lack of room.',
  over=['inputs', 'histories'], text='every sequence of single and bulk writes, removals and strictness changes, at every fill level',
  why='The tests fill one collection and check that the next insert fails; they do not cover rewriting while full, defaults, bulk updates refused midway, or strictness changed between operations.',
  files=[COLL, GRP, CONT], mech=[('strict check before a write', COLL + ': insert/setdefault/update'), ('bulk update refused before anything is written', GRP + ': Group.update')],
  observe=['exceptions and contents after each operation']),
 dict(id='C03', title='A group behaves as one ordered map however it is divided',
  statement='A group of collections answers every lookup, membership test, pop, default, bulk update and removal as a single ordered map would, for any number of collections and any limits. Its key-ordered views, range views and minimum/maximum keys are in global key order with every entry exactly once, and its value-ordered views are in global value order. Replaying one history on differently divided groups gives the same map.',
  over=['inputs', 'histories', 'configurations'], text='every operation sequence on groups of 1 to many collections',
  why='Tests use one or two fixed layouts and mock the collections; ordering and completeness must hold for every division of every key set.',
  files=[GRP], mech=[('dispatch to the responsible collection', GRP + ': Group.determine_partition'), ('merging views', GRP + ': items/keys/values/byValue/minKey/maxKey')],
  observe=['return values and views of the group']),
 dict(id='C04', title='Placement depends only on the identifier and the collection count',
  statement='Every identifier written to a group is stored in exactly one of its collections, and which one depends only on the identifier and the number of collections: not on the operation that wrote it, on the order of writes, on the process, or on how the group was built. An entry is therefore found after storing and reloading the group in another process, and numbered identifiers spread over the collections instead of piling up in a few.',
  over=['inputs', 'configurations', 'histories'], text='every identifier, number of collections, write operation, process and hash seed',
  why='A test in one process cannot notice placement that depends on the interpreter hash seed or on construction, and samples two identifiers.',
  files=[GRP, UTIL], mech=[('identifier to number', UTIL + ': convert_id'), ('modulo placement', GRP + ': determine_partition')],
  observe=['contents of the individual collections, also from a fresh interpreter']),
 dict(id='C05', title='Size, capacity, usage and health reports are exact',
  statement='The reported number of entries, capacity, percentage used and status of collections, groups and containers always equal what the stored contents imply: usage is the exact ratio of entries to limit, the status level (below 60, 60, 70, 80 or 90 percent and above) is the one that percentage falls in, and every report of a group covers each of its collections. This holds at every fill level, over-full non-strict collections included, and after reloading from a database.',
  over=['inputs', 'histories', 'configurations'], text='every fill level and layout reached by any sequence of writes and removals',
  why='Tests check statuses at a few hand-picked fill levels on mocked collections; boundaries and uneven layouts are unbounded.',
  files=[COLL, GRP, CONT, UTIL], mech=[('usage computation', COLL + ': usage/status'), ('aggregation', GRP + ': usage/status/size; ' + CONT + ': usage/status/size/capacity')],
  observe=['size, capacity, usage, status properties']),
 dict(id='C06', title='Sizing is sufficient, prime and never oversized',
  statement='A container or group created for a requested capacity gets a prime number of collections (or a single one) whose limits add up to at least the request, and the smallest such number for the chosen maximum collection size. Custom layouts are honoured exactly, gaps filled with the default limit, without altering the caller\'s argument; impossible sizes or layouts are refused with an error. Strictness asked for at creation applies to every collection. Groups and containers made of given parts consist of exactly these; parts of the same identity are refused.',
  over=['inputs', 'configurations'], text='every requested capacity, collection size and custom layout',
  why='The tests try a handful of capacities; off-by-one errors and prime gaps only show for particular numbers.',
  files=[UTIL, GRP, CONT], mech=[('prime search', UTIL + ': is_prime/get_primes'), ('layout', GRP + ': Group.new; ' + CONT + ': Container.new')],
  observe=['number, limits and strictness of the created collections']),
 dict(id='C07', title='A container is one map laid over ordered groups',
  statement='Reading an identifier from a container returns the value held by the first group, in order, that has it; membership tests agree with reading; writing always goes to the primary group and then shadows the others; deleting removes the identifier everywhere, so that it cannot reappear. Falsy values count as present, and reading an absent identifier returns nothing rather than another entry.',
  over=['inputs', 'histories', 'configurations'], text='every operation sequence over any layering of groups with overlapping identifiers',
  why='Tests use containers whose groups are mocks or hold one entry; overlaps between layers and falsy values are not sampled.',
  files=[CONT], mech=[('layered lookup', CONT + ': Container.read/write/delete/has')],
  observe=['read, write, has, in, delete results']),
 dict(id='C08', title='Condensing keeps every object readable with the same value',
  statement='Condensing a container moves everything into the primary group and drops the others without changing what any identifier reads as. When the primary group is strict and too small the operation raises a capacity error, and every identifier still reads as before.',
  over=['inputs', 'configurations'], text='every layering of groups, overlapping identifiers, limits and strictness',
  why='Tests condense two or three mocked groups that fit; overlapping identifiers and refusals part-way are not covered.',
  files=[CONT, GRP], mech=[('condense loop', CONT + ': Container.condense')],
  observe=['contents before and after']),
 dict(id='C09', title='Resizing loses nothing, whatever is asked for',
  statement='Resizing a container to any capacity, with or without condensing and with any collection size, keeps every identifier readable with its value and the strictness as it was, and afterwards provides at least the requested capacity in a new primary group, laid out as in a new container of that capacity. A capacity below the number of stored identifiers is refused and a refusal, whenever it happens, loses nothing.',
  over=['inputs', 'histories', 'configurations'], text='every sequence of resizes over every layering and fill',
  why='Tests resize one prepared container; capacities around the number of stored items and repeated resizes are not explored.',
  files=[CONT], mech=[('resize', CONT + ': Container.resize')],
  observe=['contents, groups and capacity before and after']),
 dict(id='C10', title='Create/read/update/delete through a connection keep their contract',
  statement='Through a database connection, creating an identifier that exists in any layer fails and changes nothing, updating creates or replaces, deleting removes everywhere, and single and bulk reads return exactly the stored values, falsy ones included, whether the arguments are given by position or by the names in the documentation. After each completed operation a new connection to the database sees exactly the resulting contents.',
  over=['inputs', 'histories'], text='every sequence of single and bulk operations on a layered database',
  why='Tests use prepared mocks or one object per operation; interleavings of operations over layered contents are unbounded.',
  files=[CCON, CDB, CONT], mech=[('connection operations', CCON + ': ContainerConnection.create/read/update/delete')],
  observe=['results, and contents seen by a fresh connection']),
 dict(id='C11', title='Transaction blocks are all or nothing',
  statement='Changes made inside a transaction block become visible to others all together when the block ends normally, and not at all when it is left by any exception or when the commit fails; changes made outside a block are committed at once; with automatic commits switched off nothing is visible until an explicit commit and an abort discards exactly the uncommitted changes. A failure of any kind leaves the connection usable, showing the committed state.',
  over=['histories', 'fault_sequences'], text='every sequence of blocks, automatic operations and failures (exceptions, duplicate identifiers, unstorable values, refused commits)',
  why='Tests commit one block and abort one; failures at each point of a history, followed by further work on the same connection, are not sampled.',
  files=[CCON, TRANS], mech=[('context manager commit/abort', TRANS + ': __enter__/__exit__; ' + CCON + ': __enter__/__exit__'), ('autocommit', TRANS + ': autocommit')],
  observe=['contents seen by this and a fresh connection, number of committed transactions']),
 dict(id='C12', title='Concurrent connections see snapshots and lose no update',
  statement='For any interleaving of transactions on several connections, each transaction reads one consistent snapshot plus its own writes, other connections never see uncommitted changes, and the committed contents equal those of the committed transactions applied one after another. A transaction whose write conflicts with one committed since it began is refused and leaves no trace; it never silently overwrites. Where the storage can merge them, transactions that only replace objects of their own, add them to collections in use, or remove some of many, are all accepted. The limit of a strict collection holds for what transactions commit side by side as it does for one. All this is the same over storages that keep past states and can merge conflicting changes as over those that cannot.',
  over=['schedules', 'histories'], text='every interleaving of reads, writes, commits and aborts of two or three connections, over in-memory, file and overlay storages, on small and on large trees',
  why='The existing tests use a single connection at a time.',
  files=[CCON, CDB, TRANS], mech=[('one transaction manager per connection', CDB + ': ContainerDb.open'), ('conflict detection', 'commit through ' + TRANS)],
  observe=['reads in each connection, commit results, committed contents']),
 dict(id='C13', title='After a crash the file holds exactly a prefix of completed transactions',
  statement='If the program stops at any byte of writing the database file, reopening yields exactly the contents left by some prefix of the completed transactions, never part of one, and every transaction whose end was reached on disk is included. The reopened database accepts further work, and closing and reopening any number of times, with or without packing, changes nothing.',
  over=['crash_points', 'histories'], text='every history of transactions, every byte at which the file may have been cut, every way of opening it',
  why='The tests use in-memory storage and never reopen a file.',
  files=[CDB, TRANS, CCON], mech=[('append-only file storage', CDB), ('commit', TRANS)],
  observe=['contents after reopening']),
 dict(id='C14', title='Condensing/resizing inside transactions never hides an object',
  statement='Condensing or resizing a stored container, with whichever transaction manager is supplied, keeps every object readable with its value in every committed state another user could see on the way. If any single commit on the way fails, the error is reported, everything stays readable, and doing the operation again completes it. Afterwards, completed or not, the container works on like any other.',
  over=['fault_sequences', 'histories', 'configurations'], text='every layering, every kind of transaction manager, and a failure of any one of the commits',
  why='Tests use mocked transaction managers that never fail and never look at intermediate committed states.',
  files=[CONT, TRANS], mech=[('stepwise commits', CONT + ': condense/resize with tm'), ('commit contexts', 'citrine/storage/transaction.py')],
  observe=['each committed state of the storage']),
 dict(id='C15', title='Opening, creating and loading databases is exact and isolated',
  statement='A database created with a capacity and strictness has these when created and whenever it is opened again by storage, path or loading, with all its contents; one opened at a fresh place or in memory starts empty and usable. Opening a database that holds no container is refused and leaves everything in it as it was. Databases used side by side in one process never see each other\'s contents.',
  over=['configurations', 'histories', 'inputs'], text='every way of creating and reopening, every storage kind, every set of databases used together',
  why='Tests open fresh in-memory databases only; reopening, files, foreign contents and side-by-side use are not exercised.',
  files=[CDB, CONT], mech=[('constructors', CDB + ': ContainerDb.new/create/load/__init__')],
  observe=['contents and parameters after each opening, errors, files on disk']),
 dict(id='C16', title='Reads over a group of databases find exactly what is stored',
  statement='Reading an identifier over any set of databases returns the stored value if exactly one of them holds it, reports absence only if none does, and raises a duplicate error if several do; asking for all matches returns every database\'s value exactly once, falsy values included. The order and number of the databases, empty sets, shared transaction managers and time limits that are not reached never change the result; a read that outlasts its limit is a TimeoutError.',
  over=['configurations', 'inputs'], text='every set of databases with colliding identifiers and every read option',
  why='No existing test reads through a group of databases.',
  files=[GCON, CCON], mech=[('parallel lookup', GCON + ': GroupReadConnection.read')],
  observe=['results of group reads']),
 dict(id='C17', title='Expanding containers and registries keep every entry',
  statement='The expandable cluster container and the cluster registry answer every lookup like a map that received the same operations, whatever the number of internal tables. Expanding to more tables, any number of times, keeps every entry readable; expanding to the same or a smaller number is refused and changes nothing. Deleting an entry removes it from every table; deleting an absent one raises KeyError. Entries of modules keep the name, path, date, limit and status they were made with, and the count of objects of the last update.',
  over=['inputs', 'histories', 'configurations'], text='every operation sequence with expansions, in memory or stored',
  why='No existing test covers these containers.',
  files=['citrine/persistence.py', 'citrine/cluster_tools/clusterdb/container.py', 'citrine/cluster_tools/dbmodule/dbmodule.py'], mech=[('expansion', PERS + ': DbContainer'), ('registry', 'citrine/cluster_tools/clusterdb/container.py')],
  observe=['read/has results']),
 dict(id='C18', title='Managing database modules touches only the module\'s own files',
  statement='Creating, using, listing and deleting database modules affects only the files belonging to the named module, however its path is spelled; modules with similar names, neighbouring files and data are left byte for byte as they were. Creating over an existing module is refused unless overwriting is asked for, deleted modules are gone from their group, and a module\'s stored data survive until it is deleted.',
  over=['histories', 'inputs', 'configurations'], text='every sequence of module operations over similar names, nested directories and path spellings',
  why='No existing test creates or deletes module files.',
  files=['citrine/cluster_tools/dbmodule/dbmodule.py', 'citrine/cluster_tools/dbmodule/dbgroup.py', 'citrine/cluster_tools/dbmodule/consts.py'], mech=[('file creation and removal', 'citrine/cluster_tools/dbmodule/dbgroup.py: create_dbmodule/delete_dbmodule')],
  observe=['the directory tree, byte for byte']),
 dict(id='C19', title='Clients of a served database share one durable map',
  statement='Clients connected to a served database read what any client has committed, their transaction blocks are all or nothing, and creating an identifier that another client created fails. The name, capacity and strictness given by the creating client are what every later client finds, and a restart of the server changes nothing.',
  over=['histories', 'configurations', 'fault_sequences'], text='every sequence of operations by up to three clients with server restarts',
  why='No existing test starts a server or a client.',
  files=[CLI, CDB, CCON], mech=[('client connect', CLI + ': ContainerClient.connect')],
  observe=['reads of fresh clients']),
 dict(id='C20', title='Past states of a database stay readable and untouchable',
  statement='A connection opened as of an earlier moment, given by transaction or by time, at or just before it, shows exactly the contents that were committed then: later writes, deletions, blocks and resizes never show through, in whatever order they are made and however long the connection stays open. It cannot be written to, an attempt changes nothing, and opening it does not disturb the present. Asking for two moments at once is refused.',
  over=['histories', 'inputs'], text='every history of transactions and every earlier moment of it',
  why='No existing test opens a past state.',
  files=[CDB, CCON], mech=[('passing the moment on', CDB + ': ContainerDb.open'), ('connection construction', CCON + ': ContainerConnection.__init__')],
  observe=['contents seen by historical and present connections']),
 dict(id='C21', title='Every connection handed out is its own, clean, and given back',
  statement='Every connection a database hands out, by open or by a with-block of the database, is used by nobody else, shows the committed contents and commits automatically, whatever was done to a connection that was closed before and is taken from the pool again. With-blocks of the database may be nested and entered by several threads at once: leaving one closes its own connection and no other, even when it is left by an error with uncommitted changes, and the error comes through.',
  over=['histories', 'schedules'], text='every interleaving of opening, nesting, using and closing connections by several threads',
  why='The existing tests open one connection at a time.',
  files=[CDB, CCON], mech=[('with-blocks', CDB + ': ContainerDb.__enter__/__exit__'), ('automatic commits', CCON + ': autocommit')],
  observe=['state and contents of each connection, list of open connections']),
 dict(id='C22', title='Reorganising a container in use loses, revives and duplicates nothing',
  statement='While some connections read, write and delete objects, others may resize or condense the same container, in one transaction or step by step: whatever the order in which their transactions interleave, and whichever of them are refused because of a conflict, the committed contents equal those of the committed writes and deletions applied one after another. No object is lost with a group that was dropped, none comes back after its deletion, groups added meanwhile stay, and a refused transaction or an interrupted reorganisation can simply be done again.',
  over=['schedules', 'histories', 'configurations'], text='every interleaving of transactions with resizes and condensations, including transactions that end between the steps of one, over in-memory, file and overlay storages',
  why='The existing tests reorganise containers that nobody else uses.',
  files=[CONT, COLL, GRP, TRANS], mech=[('dropping groups', CONT + ': condense/resize'), ('conflict detection between contents and layout', COLL + ', ' + GRP + ', ' + CONT)],
  observe=['reads in each connection, commit results, committed contents and groups']),
 dict(id='C23', title='Options given when opening a database are what it does',
  statement='Every documented option given when a database is made, opened, loaded or connected to, alone or with any others, takes effect, and those not given have their documented defaults: pool and cache sizes and timeouts (also of connections to the past), name, registry, cross references and record size of the database; creating anew, quota, attachments, reading only, an earlier end and the settings for packing of the file; cache, name and mode of a client. Nothing is written by a database opened to read. Databases of one registry take part in the same transactions, all or none, and objects may refer to each other across them exactly where that is allowed.',
  over=['configurations', 'histories'], text='every combination of options with every way of opening a database, and the work done with it afterwards',
  why='The existing tests open databases with default options, one at a time.',
  files=[CDB, 'citrine/client/container_client.py', CCON], mech=[('options passed on', CDB + ': ContainerDb.__init__/new/create/load; citrine/client/container_client.py: connect')],
  observe=['options reported by the database, contents, files on disk, errors']),
]
