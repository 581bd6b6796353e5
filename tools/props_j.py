"""The JSON-LD/ActivityStreams properties (J..)."""
JLD = 'jsonld/jsonld.py'
BASE = 'jsonld/base.py'
IN = 'jsonld/engine/json_input.py'
ENG = 'jsonld/engine/jsonld_engine.py'
PKG = 'jsonld/package.py'
KAM = 'jsonld/kamino.py'
DOC = 'jsonld/docloader.py'
UT = 'jsonld/utils.py'
DT = 'jsonld/tools/datetime.py'
URL = 'jsonld/tools/url.py'
TYP = 'jsonld/tools/type.py'
NUM = 'jsonld/tools/number.py'
MOD = 'activitystreams/models.py'
PRO = 'activitystreams/properties.py'
APK = 'activitystreams/package.py'

PROPS = [
 dict(id='J01', title='Objects survive being written as JSON-LD and read back',
  statement='Writing any ActivityStreams object as JSON and reading it with an engine gives an object of the same type holding the same values in every property, at every depth of nesting: text, numbers, booleans, times, durations, references, lists in the same order, nested objects of any type. Writing it again gives the same document, however often this is repeated and with whichever engine.',
  over=['inputs', 'histories'], text='every object of every type, with any combination of properties, nested to any depth',
  why='There are no tests of the ActivityStreams side; the 50 types, 60 properties and arbitrary nesting cannot be sampled by hand.',
  files=[JLD, IN, MOD, PRO, APK], mech=[('output', JLD + ': PropertyJsonLD.data/json'), ('intake', IN + ': from_json/_unpack_objects')],
  observe=['properties of the object read back, the second document']),
 dict(id='J02', title='Output options select, rename and drop exactly what they say',
  statement='The include, exclude, rename, include_none and reject_values options of an object\'s output select and name exactly the top-level entries they say, in any combination: an entry is present if and only if it is included, not excluded, not a rejected value and not None (unless None is asked for), and its value is the one of the full output. JSON text is the same document, minified or indented as asked and only then. Options never change the object, later outputs or the internal namespace\'s absence.',
  over=['inputs', 'configurations'], text='every object and every combination of output options',
  why='No tests; the options interact in many combinations and defaults are filtered in two passes.',
  files=[JLD], mech=[('filtering', JLD + ': data/json')],
  observe=['data() and json() with options']),
 dict(id='J03', title='Serialisation says exactly what the object holds',
  statement='The document of an object contains its type, its context (only at the top) and exactly the properties that hold a value, each once and in its ActivityStreams form: times and durations as text, links as their address, nested objects as nested documents, lists in order, booleans and falsy values as they are. Later assignments and removals are what counts, a returned document is independent of the object, and writing makes no network request.',
  over=['inputs', 'histories'], text='every object, any nesting, any sequence of assignments',
  why='No tests; each of the 60 properties has an own output form that must hold at every depth.',
  files=[JLD, PRO, MOD], mech=[('output context', BASE + ': JSON_DATA_CONTEXT getters'), ('recursive writing', JLD + ': __handler')],
  observe=['data() and json()']),
 dict(id='J04', title='Reading a document keeps everything the vocabulary defines',
  statement='Reading any ActivityStreams document, whatever its spelling (context forms, unknown extra terms, order of entries, text or dictionary, missing context) gives an object from which the same document is written again, restricted to the defined properties; the document given is not changed. Reading the same text one by one, as a list, or as a dictionary gives equal objects.',
  over=['inputs', 'configurations'], text='every document in every spelling',
  why='No tests; documents from the web vary without bound.',
  files=[IN, ENG], mech=[('intake', IN + ': from_json'), ('several texts', ENG + ': __getitem__')],
  observe=['objects read and their documents']),
 dict(id='J05', title='The type of a document decides the class, at every level',
  statement='A document whose type is one of the vocabulary, in any of its spellings (short, prefixed, full address, alone or in a list), becomes an object of exactly that class, related to the classes of its ancestors and of no others, wherever it stands inside another document. A top-level document of unknown or missing type is refused with a ValueError; an unknown type inside is left out without losing the rest.',
  over=['inputs'], text='every type, spelling and position',
  why='No tests; 50 types times their spellings and positions.',
  files=[IN, ENG, MOD, APK], mech=[('class lookup', IN + ': _get_object_class'), ('registry', ENG + ': register_class')],
  observe=['class of the objects read']),
 dict(id='J06', title='Every property accepts exactly its range; refusals change nothing',
  statement='Every property of every type accepts every value of its ActivityStreams range (single or list, as the property allows) and refuses every other value with a ValueError, whether given on construction, by assignment or in a document, at the top or inside. A refusal leaves the object as it was. Numbers that must not be negative are refused when negative, None always clears a property. A validator put before a setter of one\'s own does the same for its types and additional checks.',
  over=['inputs'], text='every property of every type against values of every kind',
  why='No tests; the product of properties and kinds of values is too large for examples.',
  files=[PRO, TYP, NUM, MOD], mech=[('validation', TYP + ': SetterValidator/evaluate_value'), ('ranges', PRO)],
  observe=['values accepted and errors']),
 dict(id='J07', title='Addresses become links, and links are written as their address',
  statement='A web address, account or mail address given for any property that takes references becomes a Link with exactly that address, one by one or inside lists, from Python or from a document; a dictionary with an address becomes a Link with these fields; whatever is not an address is not turned into a Link. Every link is written as its address. Reading lists of links makes no network request.',
  over=['inputs'], text='every address, property and shape',
  why='No tests; the address rules apply to unbounded text.',
  files=[MOD, PRO, URL], mech=[('conversion', MOD + ': Link.from_str'), ('writing', MOD + ': Link.href_only')],
  observe=['property values and documents']),
 dict(id='J08', title='Evaluating a link opens it; what cannot be opened stays a link',
  statement='Reading a property that holds a single link requests its address, asking for ActivityStreams types, and presents the object found there; if anything at all goes wrong (network, status, format, type, content) the Link itself is presented and no error reaches the reader, and a later reading that can succeed does. The object keeps and writes the link itself, and chains of links can be walked from object to object.',
  over=['inputs', 'fault_sequences', 'histories'], text='every reference property, every kind of answer or failure, every walk through linked documents',
  why='No tests; the faults of the network and the graphs of documents are unbounded.',
  files=[MOD, UT, PRO], mech=[('opening', MOD + ': Link.get/expand'), ('request', UT + ': jsonld_get')],
  observe=['values presented, requests made']),
 dict(id='J09', title='Accessors follow the object\'s context, which always comes back',
  statement='Which getter, setter or deleter of a contextual property runs depends only on the context that the object itself is in: the accessor registered for that context, else the default one, else an AttributeError. Contexts nest, belong to one object, and are restored on leaving in every way, exceptions included; so a failed serialisation leaves every object reading as before. Redefining an accessor in a subclass does not affect the parent class.',
  over=['histories', 'inputs', 'fault_sequences'], text='every set of contextual properties and every nesting of contexts, with failing accessors',
  why='No tests; the property is over arbitrary nesting and failures in the middle of it.',
  files=[BASE, JLD], mech=[('context stack', BASE + ': JsonContextAwareManager'), ('dispatch', BASE + ': ContextualProperty')],
  observe=['which accessor answered']),
 dict(id='J10', title='Packages and engines share no state with their sources',
  statement='Making and using packages and engines never changes the plain classes they were made from, nor other packages or engines: a property added in one does not appear in another. An object of the plain classes put inside an object of an engine, alone or in a list, reads as an object of the engine\'s class with the same values and is written in full; an object of another engine keeps its class.',
  over=['histories', 'configurations'], text='any number of engines and packages and any mixture of their objects',
  why='No tests; sharing only shows for particular combinations.',
  files=[KAM, PKG], mech=[('cloning', KAM + ': ClassCloner.clone_classes'), ('conversion', KAM + ': change_class/wrap_properties')],
  observe=['classes, properties and documents of the objects']),
 dict(id='J11', title='Packages and engines combine by namespace, the later one on top',
  statement='Adding packages, or packages and engines to an engine, gives every class and property of all of them; where several have the same namespace, the later one counts, and a property redefined by a later package takes effect in every kept class that has it, subclasses included. Subtracting removes exactly what the subtracted ones have. The operands stay as they were and work as before. What cannot be combined, mapped or left over is refused with an error.',
  over=['inputs', 'configurations'], text='every set of packages with inheritance and overlapping namespaces, every sequence of additions and subtractions',
  why='One trivial test exists; the combinations of overlapping packages are unbounded.',
  files=[PKG, ENG, KAM], mech=[('package arithmetic', PKG + ': __add__/__sub__'), ('engine arithmetic', ENG + ': __add__/__sub__'), ('linking', PKG + ': link_properties')],
  observe=['classes, properties and behaviour of the result']),
 dict(id='J12', title='Times are read and written without moving the instant',
  statement='Every time in the ActivityStreams format (with or without seconds, a fraction, Z or an offset) is read as the datetime with exactly these fields and offset; every datetime is written as a valid time of the same fields and offset (Z if there is none or it is zero), so that reading it again gives the same instant. Whatever is not a valid time is refused with a ValueError and changes nothing.',
  over=['inputs'], text='every time text and every datetime with any offset',
  why='No tests; fractions, offsets and calendar limits have many corner cases.',
  files=[DT, PRO], mech=[('reading', DT + ': parse_activitystream_datetime'), ('writing', DT + ': datetime_str'), ('validation', DT + ': is_activity_datetime')],
  observe=['datetimes and texts']),
 dict(id='J13', title='Durations are written as valid texts of the same length',
  statement='Every timedelta, zero, negative and fractional ones included, is written as a valid xsd:duration in normal form (365-day years, 30-day months) that stands for exactly the same length; the property itself keeps the timedelta. Durations given as text are kept and written as they are; other values are refused.',
  over=['inputs'], text='every timedelta',
  why='No tests; the arithmetic has boundaries at every unit.',
  files=[DT, PRO], mech=[('writing', DT + ': timedelta_str')],
  observe=['text of the duration']),
 dict(id='J14', title='What counts as an address is judged alike everywhere',
  statement='A text is accepted as a web address if and only if it starts with http:// or https:// and has a host of letters, digits and -_.: only (https alone when secure is asked for); an account is accepted exactly when the mail address after its optional acct: prefix is. Judging never raises, whatever the text, and makes no request. Every reference property and Link.from_str accept exactly these texts.',
  over=['inputs'], text='every text',
  why='No tests; the rule is over all texts, malformed and non-ASCII ones included.',
  files=[URL, MOD], mech=[('urls', URL + ': validate_url'), ('accounts', URL + ': validate_acct_or_email')],
  observe=['judgements and links made']),
 dict(id='J15', title='The document loader fetches only what it may and reports it exactly',
  statement='A loader returns for every document its content, content type, final address and linked context or alternate as the Link headers say, requesting it once with the loader\'s headers. A secure loader refuses anything not fetched by https, redirects included, and addresses that are not web addresses are never requested. Every failure, network errors, error statuses and broken content included, is reported as a JsonLdError with its cause.',
  over=['inputs', 'configurations', 'fault_sequences'], text='every answer of a server, address, header and redirect chain',
  why='No tests; answers and faults of servers are unbounded.',
  files=[DOC], mech=[('loading', DOC + ': RequestsJsonLoader.get/__call__')],
  observe=['remote documents, errors, requests']),
 dict(id='J16', title='Context documents are fetched once; failures are tried again',
  statement='The caching loader requests an address until it has succeeded once and never again, for all loaders together; it always returns the document of that one success for exactly that address, and never remembers a failure. Documents sharing remote contexts therefore request each context once, a document whose context could not be loaded is refused, and it can be read as soon as the context is there.',
  over=['histories', 'fault_sequences'], text='every sequence of loads, page changes and failures',
  why='No tests; needs histories of successes and failures.',
  files=[DOC, 'jsonld/__init__.py'], mech=[('cache', DOC + ': CachedRequestsJsonLoader')],
  observe=['requests made, documents returned']),
 dict(id='J17', title='A collection counts and yields exactly its members',
  statement='A collection or page of any type yields, when iterated, exactly its members in order (a single member once, none when empty), again and again, and what later replaces them from then on. Its count is the one supplied, zero included, and otherwise the number of listed members (0 for a reference or nothing); it is written with the collection. Making or iterating a listed collection makes no network request.',
  over=['inputs', 'histories'], text='every collection type and every kind and number of members',
  why='No tests.',
  files=[MOD, PRO], mech=[('counting', MOD + ': Collection.__init__'), ('iteration', MOD + ': Collection.__iter__')],
  observe=['totalItems, iteration, documents']),
 dict(id='J18', title='Every type has exactly its properties, however they are looked at',
  statement='Every type has exactly the properties that the vocabulary defines for it and its ancestors, and a subclass adds its own without affecting the parent. Attribute access, indexing by one name or several, and iteration give the same values; unknown names raise a KeyError naming exactly those. Setting one property never changes another, nor another object.',
  over=['inputs', 'histories'], text='every type, object, set of names and sequence of assignments',
  why='No tests; 50 types with 60 properties each written out by hand in the code.',
  files=[BASE, APK, PRO, MOD], mech=[('property listing', BASE + ': __get_properties__'), ('mapping', APK + ': property_mapping')],
  observe=['property names and values']),
 dict(id='J19', title='Vocabularies of one\'s own are written and read like the built-in one',
  statement='For any family of classes and properties packaged with a mapping, every class of the engine has exactly its own, inherited and mapped properties, the nearest definition counting, and the plain classes stay without the mapped ones. Objects are written with every value in its JSON form at any depth: sequences and sets of any kind as lists, mappings as objects, subclasses of a kind like the kind, other values as their text. Documents are read into these classes wherever their type is known: plain dictionaries, lists and falsy values come back as they are, what is typed but unknown becomes the default class if there is one (None inside, refused on top, if not), and they are written again as read.',
  over=['inputs', 'configurations'], text='every family of classes, every object and every document of them',
  why='Tests use one or two fixed classes; inheritance, mapping, value kinds and nesting combine without bound.',
  files=[JLD, IN, PKG, KAM], mech=[('writing values', JLD + ': PropertyJsonLD.data'), ('reading values', IN + ': from_json/_unpack_objects'), ('mapping', PKG + ': link_properties')],
  observe=['properties of the classes, documents, objects read']),
 dict(id='J20', title='Threads sharing an engine do not disturb each other',
  statement='Threads that use the same engine, packages and loaders at the same time, each with documents and objects of its own, get exactly what each would get alone: the objects read, the documents written with whatever options, the values of their properties, the objects behind references, the context documents loaded and the errors are the same, wherever one thread is interrupted by another, also when engines are made meanwhile or something is computed or fetched for the first time. Nothing stays behind afterwards.',
  over=['schedules', 'inputs'], text='every pair or triple of threads and every point at which the interpreter may pass from one to another',
  why='No test uses threads; what is shared only shows at particular points of interruption.',
  files=[IN, JLD, BASE, DOC, KAM], mech=[('reading', IN + ': from_json'), ('writing', JLD + ': PropertyJsonLD.data'), ('contexts of properties', BASE + ': JsonContextAwareManager'), ('cache', DOC + ': CachedRequestsJsonLoader')],
  observe=['results of each thread, compared with those of the same steps alone']),
]
