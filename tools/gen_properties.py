#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the texts live here, one call per property)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
rows = []
def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    rows.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

# ---------------------------------------------------------------- cache
P('C01', 'Cache stays within its byte budget and evicts oldest-written first',
  'After every operation the estimated sizes of the entries a cache holds add up to at most its configured maximum, and its own size and element counters agree with what can be read back. When a set needs room, the entries whose last set is oldest are dropped first and no more of them than necessary; an operation that fits drops nothing. An update of an existing key counts as its newest set.',
  ['histories', 'configurations'], 'every sequence of set/get/erase, every key order, value size and budget',
  'tests/cache sets one integer in a 1 KiB cache; no eviction, update or ordering is ever reached, and eviction order is a property of histories',
  ['coda/cache.hpp', 'coda/cache.tcc', 'coda/estimate_capacity.hpp'],
  [('recency list spliced by set()', 'coda/cache.tcc set'), ('drop_last_unused loop', 'coda/cache.tcc drop_last_unused'), ('size_cur bookkeeping', 'coda/cache.tcc set/erase')],
  [('size_cur', 'sum of the sizes of the held values', 'coda_cache::size_cur'), ('begp/endp list', 'entries ordered by last set', 'coda_cache::elem_t prev/next')],
  ['coda_cache::get', 'coda_cache::set', 'coda_cache::erase', 'coda_cache::dbg'])
P('C02', 'Cache lookups return the latest value and never an expired one',
  'A lookup of a retained key returns exactly the value given by its most recent set; a key never set, erased or evicted is reported missing, and the variant that fills a caller variable then leaves it untouched. With a lifetime of T>0 seconds an entry is returned while its age is at most T and never afterwards, its age counting from its first set or from the last set that asked to refresh the time; with T=0 nothing expires. Erase removes exactly the named key and tells whether it was there.',
  ['histories', 'configurations'], 'every sequence of set/get/erase with any passage of time between them, every lifetime',
  'the test sleeps through one key and prints the outcome without asserting it; combinations of refresh, update, erase and expiry are never exercised',
  ['coda/cache.hpp', 'coda/cache.tcc'],
  [('expiry test in both get()', 'coda/cache.tcc get'), ('time refreshed only on request', 'coda/cache.tcc set'), ('erase(it) unlink', 'coda/cache.tcc erase')],
  [('elem_t::time', 'creation or refresh time', 'coda/cache.hpp')],
  ['coda_cache::get (both)', 'coda_cache::erase'])
# ---------------------------------------------------------------- synque
P('C03', 'Thread queue is FIFO and delivers every element exactly once',
  'For any number of threads adding and getting (single or batch), each element added is returned by exactly one get, intact, and elements come out in the order they were added. A batch get appends to the caller\'s container, in order, at most max_count elements (all of them when max_count is not positive). The reported size is the number of elements added and not yet taken at some moment during the call.',
  ['schedules', 'histories'], 'every interleaving of concurrent add / get / batch get / signal / size calls',
  'synque has no test at all; and ordering or loss bugs need particular interleavings',
  ['coda/synque.hpp'],
  [('one mutex around every access to the deque', 'coda/synque.hpp add/get/size')],
  [('d', 'the queued elements', 'coda::synque::d')],
  ['synque::add', 'synque::get', 'synque::size'])
P('C04', 'Blocked consumers of the thread queue are woken; nobody waits for nothing',
  'A waiting get returns once an element is available to it or it is signalled: whenever every thread is idle or blocked, no consumer is blocked while the queue holds an element, and each signal() releases a consumer that was waiting. A get that may not wait never blocks and fails (-1) exactly when the queue is empty; a waiting get fails only after being woken to an empty queue, and a failed get delivers nothing.',
  ['schedules'], 'every interleaving of producers, consumers and signallers, including wake-ups that find the element already taken',
  'there is no synque test; lost wake-ups and stuck waiters only appear under specific schedules',
  ['coda/synque.hpp'],
  [('pthread_cond_signal under the mutex', 'coda/synque.hpp add/signal'), ('re-check after pthread_cond_wait', 'coda/synque.hpp get')],
  [('c', 'condition the consumers wait on', 'coda::synque::c')],
  ['return values of synque::get', 'which threads are blocked at quiescence'])
# ---------------------------------------------------------------- shm_queue
P('C05', 'Shared-memory queue delivers each flushed box once, whole, in order',
  'For any number of writer and reader processes, the boxes accepted by flush are handed out by unflush in the order they were accepted, each to exactly one reader and byte for byte as flushed. A reader never obtains a box that was not flushed, a mixture of two boxes, or one overwritten while being read.',
  ['schedules', 'histories'], 'every interleaving of any number of processes putting, flushing and unflushing, across any number of wrap-arounds of the ring',
  'no test touches shm_queue; delivery order is a property of concurrent histories',
  ['coda/shm_queue.hpp', 'coda/shm_queue.tcc'],
  [('lock_queue around ring access', 'coda/shm_queue.tcc flush/unflush'), ('count semaphore taken before and given after the box is in place', 'coda/shm_queue.tcc')],
  [('info->start/end', 'ring positions', 'shm_queue::queue_info'), ('boxes', 'ring slots in shared memory', 'shm_queue::queue')],
  ['unflush/get results in every process'])
P('C06', 'Shared-memory queue capacity, packing and counting are exact',
  'A ring configured for N boxes accepts N-1 undelivered boxes; a flush into a full ring discards that box alone and leaves the undelivered ones intact, and the reported number of boxes always equals the undelivered ones. Objects put are packed whole and in order: put starts a new box (flushing the old one) exactly when the object does not fit, an object larger than a box is refused, and a reader gets back the objects of a box in put order and then no more. Unflush of an empty queue waits for its timeout and then fails.',
  ['histories', 'configurations'], 'every sequence of put/flush/unflush/get for every box size, object size and ring length',
  'no test touches shm_queue; boundary behaviour depends on geometry and on the history of the ring',
  ['coda/shm_queue.hpp', 'coda/shm_queue.tcc'],
  [('(end+1)%size != start test', 'coda/shm_queue.tcc flush'), ('is_space_for', 'coda/shm_queue.tcc box'), ('clear/zero fill of boxes', 'coda/shm_queue.tcc box::clear')],
  [('current_box', 'the box being filled or consumed', 'shm_queue::queue')],
  ['put/get/flush/unflush results', 'boxes_in_queue', 'pages_used'])
P('C07', 'Attaching to a shared-memory queue finds it intact or fails cleanly',
  'Every process that connects with the geometry the queue was created with sees the same undelivered boxes and registers, however many processes connect, disconnect or race to create it. A connect that cannot succeed (other geometry, missing key file) raises an exception, leaves the queue and the processes using it undisturbed, leaves nothing attached or locked, and leaves the object able to connect later. A register holds the last value any process stored in it, registers are independent of each other and of the boxes, and out-of-range registers are ignored and read as 0.',
  ['histories', 'schedules', 'configurations'], 'every order of connects, disconnects, register accesses and geometries, and every interleaving of processes creating the queue at once',
  'no test creates a shm_queue; creation races need schedules, and failed attaches need histories',
  ['coda/shm_queue.hpp', 'coda/shm_queue.tcc'],
  [('semget/semctl initialisation', 'coda/shm_queue.tcc connect_sem'), ('geometry check', 'coda/shm_queue.tcc connect_shm'), ('registers under the lock', 'coda/shm_queue.tcc set_register/get_register')],
  [('info->reserved', 'the 12 registers', 'shm_queue::queue_info')],
  ['connect exceptions', 'get_register', 'unflush after reconnect'])
P('C08', 'Dying or interrupted processes never corrupt or lock the shared queue',
  'If a process using a shared-memory queue dies at any point of any operation, the others are never left waiting for its lock, and no surviving reader is handed a torn, duplicated or out-of-order box. A signal handled while a process waits inside an operation never lets two processes into the queue at once.',
  ['crash_points', 'fault_sequences', 'schedules'], 'death at every shared-memory access and system call of every operation, signal delivery at every wait, under every interleaving with other processes',
  'crashes and interrupted system calls cannot be provoked by the existing tests, which never open a queue',
  ['coda/shm_queue.tcc'],
  [('SEM_UNDO on the lock semaphore', 'coda/shm_queue.tcc lock_queue/unlock_queue'), ('publish the ring position last, in one store', 'coda/shm_queue.tcc flush/unflush')],
  [('semaphore 0', 'queue lock', 'SEM_ID_0')],
  ['whether surviving processes complete their operations, and what they read'])
# ---------------------------------------------------------------- shm hash_map
P('C09', 'Shared hash map behaves as a bounded finite map',
  'Every operation agrees with an ordinary map holding at most N entries: insert stores or overwrites and fails only for a new key when N entries are present, read returns the last value inserted for the key and otherwise fails leaving the output untouched, erase removes exactly its key and tells whether it was there, clear empties it, size counts the entries. Batch insert and erase equal their single operations applied in order and succeed only if all of them do. Iteration visits each entry exactly once with its current value.',
  ['histories', 'configurations'], 'every sequence of operations, any keys (colliding or not), any capacity and number of hash buckets',
  'shm_hash_map has no test; chains, reuse of freed nodes and exhaustion only arise from histories',
  ['coda/shm_hash_map.hpp', 'coda/shm_hash_map.tcc', 'coda/shm_pool.tcc', 'coda/shm_stack.tcc'],
  [('bucket chains', 'coda/shm_hash_map.tcc unprotected_insert/erase/read'), ('node pool with free stack', 'coda/shm_pool.tcc')],
  [('hash[]', 'bucket heads', 'shm::hash_map'), ('objects[]', 'chained nodes', 'shm::hash_map')],
  ['insert/read/erase/size/clear results', 'iteration'])
P('C10', 'Shared hash map operations are atomic across processes',
  'Under any interleaving of processes, every operation of the map takes effect at one instant between its call and its return: a read never returns a value that is partly one write and partly another, a batch is seen entirely or not at all, and no completed insert or erase is lost. A process holding the write lock excludes all others, while processes holding the read lock exclude only writers.',
  ['schedules'], 'every interleaving of any number of processes reading, inserting, erasing, batching and using the explicit locks',
  'no test opens a shared map, let alone from two processes; atomicity is a property of schedules',
  ['coda/shm_hash_map.tcc'],
  [('two-semaphore read/write lock', 'coda/shm_hash_map.tcc lock_read_rw/lock_write_rw'), ('lock held over the whole batch', 'coda/shm_hash_map.tcc insert/erase batch')],
  [('semaphores R and W', 'number of readers / writer present', 'mySEM_R, mySEM_W')],
  ['results of concurrent operations', 'which processes can hold the lock together'])
P('C11', 'Shared hash map survives connects, disconnects and mismatched attaches',
  'All objects connected through the same key file with the same type share one map, whichever of them created it, and entries survive any number of disconnects and reconnects, even when processes race to create it. Connecting with other dimensions, or with a missing key file, raises an exception, alters and locks nothing, and leaves the object able to connect later. Disconnecting gives the shared memory back: the process keeps no attachment.',
  ['histories', 'schedules', 'configurations'], 'every order of connects, disconnects and map operations by several objects, every mismatch of dimensions, every creation race',
  'no test connects a map; lifecycle bugs need sequences over several objects',
  ['coda/shm_hash_map.tcc', 'coda/shm_pool.tcc', 'coda/shm_stack.tcc'],
  [('header check on attach', 'coda/shm_hash_map.tcc attach, shm_pool.tcc attach, shm_stack.tcc attach'), ('disconnect releases segment and ids', 'coda/shm_hash_map.tcc disconnect')],
  [('map header', 'objects_num, item_size, hash_size', 'shm::hash_map')],
  ['connect exceptions', 'is_connected', 'attachment count of the segment'])
P('C12', 'A dead or interrupted process never leaves the shared map locked',
  'If a process dies at any point while it holds, takes or releases a lock of the map, every other process can still complete its operations. A signal handled while a process waits for a lock neither breaks mutual exclusion nor changes the lock held by others.',
  ['crash_points', 'fault_sequences', 'schedules'], 'death at every lock operation and inside every critical section, signals at every wait, under every interleaving',
  'crash and signal injection is out of reach of the tests, which never use the map',
  ['coda/shm_hash_map.tcc'],
  [('SEM_UNDO on every lock operation', 'coda/shm_hash_map.tcc lock/unlock functions')],
  [('semaphores R and W', 'lock state kept by the kernel', 'mySEM_R, mySEM_W')],
  ['whether surviving processes complete'])
P('C13', 'Shared pool and stack never hand out a slot twice',
  'The pool hands out only indices 0..N-1, never one that is already out, and fails exactly when N are out; a freed index can be handed out again and the count of allocated objects is exact. The stack returns what was pushed, last in first out, refuses to grow beyond its capacity, and reports its use exactly. Attaching again to the same memory continues from the same state, and attaching with other dimensions raises an exception.',
  ['histories', 'configurations'], 'every sequence of allocate/free/clear/attach on pools and push/pop on stacks of every size',
  'neither has a test; reuse and exhaustion need histories',
  ['coda/shm_pool.hpp', 'coda/shm_pool.tcc', 'coda/shm_stack.hpp', 'coda/shm_stack.tcc'],
  [('free stack before fresh index', 'coda/shm_pool.tcc allocate'), ('bounds in push/used', 'coda/shm_stack.tcc')],
  [('current', 'next fresh index / top of stack', 'shm::pool, shm::stack')],
  ['allocate/free/allocated_objects', 'push/pop/used/empty'])
# ---------------------------------------------------------------- stringstorage
P('C14', 'String storage gives each distinct string its own stable slot',
  'Adding a string returns the same slot every time and finding it returns that slot, whatever else was added before or in between; distinct strings never share a slot or overlap another slot\'s data, and a string never added is not found. A new slot is zero-filled, is as large as the user-data size given at creation, keeps its address and contents until the storage is freed, and a string too long to be stored is refused without effect.',
  ['histories', 'inputs'], 'every set of strings (any lengths, any shared prefixes) in every insertion order',
  'the test adds three related strings and prints them; prefix sharing, block and array growth depend on long histories',
  ['coda/stringstorage.h', 'coda/stringstorage.c'],
  [('sorted children with shared prefixes', 'coda/stringstorage.c internal_find_add'), ('block allocation', 'coda/stringstorage.c internal_find_add'), ('array growth', 'coda/stringstorage.c allocate_reallocate_array')],
  [('children', 'sorted prefix tree', 'struct string_struct'), ('blocks', 'storage of values and user data', 'storage_blocks')],
  ['string_storage_add', 'string_storage_find', 'contents of the slots'])
P('C15', 'String storage enumerates exactly the strings that were added',
  'Enumeration calls back exactly once for every distinct string that was added, with that string in full and its own slot, and for nothing else, in whatever order the strings were added.',
  ['histories', 'inputs'], 'every set of strings of any accepted length and any shared prefixes, in every insertion order',
  'the test prints three strings without checking them; reconstruction from shared prefixes depends on the whole history',
  ['coda/stringstorage.c'],
  [('prefix reconstruction while recursing', 'coda/stringstorage.c string_storage_enumerate_recursive'), ('prefix length stored with every value', 'coda/stringstorage.c internal_find_add')],
  [('prev byte', 'length of the prefix shared with the parent', 'first byte of a stored value')],
  ['callback arguments of string_storage_enumerate'])
# ---------------------------------------------------------------- codecs
P('C16', 'Base58 encodes any bytes reversibly and rejects anything else',
  'For every byte string, encoding gives its Bitcoin-alphabet base-58 numeral with one leading 1 per leading zero byte, decoding that gives the bytes back, and the lengths reported by the allocating forms are exact. Decoding a text containing any character outside the alphabet reports failure (a negative result) and yields no output buffer. Nothing is ever written beyond the stated output size; a short output buffer receives a prefix.',
  ['inputs'], 'every byte string and every text, every output size',
  'the tests round-trip 14 fixed vectors through the allocating forms; short buffers, invalid texts and other lengths are not tried',
  ['coda/base58.h', 'coda/base58.c'],
  [('carry propagation', 'coda/base58.c coda_base58_encode/decode'), ('size estimates 138/100 and 733/1000', 'coda/base58.c')],
  [], ['coda_base58_encode', 'coda_base58_encode_alloc', 'coda_base58_decode', 'coda_base58_decode_alloc', 'coda_isbase58'])
P('C17', 'Base64 and web64 encode any bytes reversibly and reject malformed text',
  'Encoding any byte string gives its standard base-64 text (web64: with - _ and . as padding), as much of it as the output size allows and never more; decoding that text gives the bytes back. Decoding succeeds exactly for texts made of whole groups over the alphabet with padding only at the end, stores at most the stated number of bytes and reports how many it stored. The allocating forms report exact lengths and give no buffer for malformed text; without memory they give no buffer and report the size needed (0 when it cannot be represented).',
  ['inputs'], 'every byte string, every text and every output size, for both alphabets',
  'neither codec has a test',
  ['coda/base64.h', 'coda/base64.c', 'coda/web64.h', 'coda/web64.c'],
  [('group loop with early exits on outlen', 'coda/base64.c coda_base64_encode, coda/web64.c web64_encode'), ('alphabet tables', 'coda/base64.c, coda/web64.c')],
  [], ['coda_base64_*', 'coda_isbase64', 'web64_*'])
P('C18', 'URL encoding is safe and reversible',
  'Encoding any bytes yields only letters, digits, - . _ ~, + for a space (or %20 in the no-plus form) and %XX upper-case escapes, and decoding any encoded text returns the original bytes; the buffer and string forms agree and report the right length. Decoding turns + into a space and %XX (either case of hex) into its byte, and leaves every other character, including an unfinished escape at the end, as it is.',
  ['inputs'], 'every byte string, and every text whose escapes are well formed or cut off at the end',
  'the only URL test is a command-line tool that is not run',
  ['coda/url.hpp', 'coda/url.cpp'],
  [('bitmap of characters to escape', 'coda/url.cpp table_urlenc'), ('hex tables', 'coda/url.cpp table_urldec/table_hexval')],
  [], ['coda_urlenc', 'coda_urlenc_noplus', 'coda_urldec'])
P('C19', 'Fixed-buffer URL escaping never overruns and loses nothing that fits',
  'Escaping, unescaping or pre-unescaping a C string into a buffer of a given size writes only inside that buffer and leaves a terminated prefix of the full result there, the full result whenever it is at least 5 bytes shorter than the buffer. Unescaping an escaped string gives it back for any bytes; unescaping also understands \\xHH and %u escapes for ASCII and two-byte characters. Pre-unescaping replaces exactly the %HH and \\xHH escapes that denote bytes of 0x80 and above and copies everything else unchanged.',
  ['inputs'], 'every C string (all byte values) and every buffer size including 0',
  'these functions have no test; overruns need particular lengths and bytes',
  ['coda/url.cpp'],
  [('room checks in the copy loops', 'coda/url.cpp coda_url_escape/coda_url_unescape/coda_url_preunescape')],
  [], ['coda_url_escape', 'coda_url_unescape', 'coda_url_preunescape'])
P('C20', 'Query parameters and headers are split exactly as written',
  'Parsing a query string yields, for each &-separated part containing =, the text before the first = mapped to all the text after it (the last occurrence of a name wins), and nothing for other parts. Parsing headers yields, for each line (ended by CRLF or by the end of the text) up to the first empty line and containing a colon, the text before the first colon mapped to all the text after it, and nothing after the empty line. Only the given number of bytes is read, and entries already in the map under other names are untouched.',
  ['inputs'], 'every text and length, with separators in any number and position',
  'no test calls these parsers',
  ['coda/url.cpp', 'coda/string.c'],
  [('bounded searches for & = CRLF :', 'coda/url.cpp coda_get_params_buf/coda_get_header_buf')],
  [], ['coda_get_params(_buf)', 'coda_get_header(_buf)'])
P('C21', 'Absolute URLs are normalised to one canonical form',
  'Creating a URL from a text of given length yields scheme (http:// if none of http/https is given), lower-cased host without leading or trailing dots, and a path that starts with / and contains no empty, . or .. segment (one trailing slash is kept at the root or when asked to keep it, dropped otherwise), followed by the query as written and without the fragment; the domain reported is the last two labels of the host. The result depends only on the given bytes and flags, and normalising it again changes nothing.',
  ['inputs', 'configurations'], 'every URL text, length and flag combination',
  'the only URL test is an interactive tool that the test run does not execute; the rewriting has rich case analysis',
  ['coda/url_parser.hpp', 'coda/url_parser.cpp'],
  [('in-place rewriting', 'coda/url_parser.cpp create_scheme/assign_anchor/assign_refers'), ('buffer sizing', 'coda/url_parser.cpp create_absolute')],
  [('val_str/dom_str', 'normal form and domain', 'coda_url')],
  ['coda_url::create_absolute', 'get_url', 'get_domain'])
P('C22', 'Relative URLs resolve against their parent',
  'Creating a URL relative to a parent keeps the parent\'s scheme and host: a text starting with / replaces the parent\'s path, any other text replaces what follows the last / of the parent\'s path, and the result is normalised as an absolute one would be, without fragment. A text with its own http or https scheme is taken as absolute and, when asked to stay in the domain, refused if its domain differs; mailto:, javascript: and pure fragments are refused and leave the URL empty. URL objects behave as values: copies are equal and independent, self-assignment changes nothing, creating into a non-empty URL fails and empties it.',
  ['inputs', 'histories', 'configurations'], 'every parent, relative text and flags; every sequence of creations, copies and assignments',
  'the tool in tests/url_parser is never run by the tests',
  ['coda/url_parser.hpp', 'coda/url_parser.cpp'],
  [('create_suburl splice', 'coda/url_parser.cpp create_suburl'), ('domain comparison', 'coda/url_parser.cpp create_relative'), ('deep copies', 'coda/url_parser.cpp copy constructor/operator=')],
  [('val_str/dom_str', 'normal form and domain', 'coda_url')],
  ['coda_url::create_relative', 'get_url', 'get_domain', 'copy and assignment'])
# ---------------------------------------------------------------- strings
P('C23', 'String searches and spans return the defined position',
  'The forward and reverse searches for a character or substring return the first (reverse: last) match within the given length, ignoring letter case exactly in the case-insensitive variants, and report absence otherwise. The span functions return the length of the longest run at the beginning (reverse: at the end) of the text consisting only of characters in, respectively not in, the given set. None of them reads outside the given length or before the text.',
  ['inputs'], 'every text, needle, alphabet and length, either case',
  'none of these functions has a test',
  ['coda/string.h', 'coda/string.c'],
  [('bounded scanning loops', 'coda/string.c')],
  [], ['coda_str*/coda_rev* results'])
P('C24', 'Number parsing and tokenising follow the text exactly',
  'Parsing a bounded decimal text gives its numeric value when it consists of digits (optionally after one minus sign in the signed form) and fits the type, and 0 whenever any other character occurs. Splitting a text yields, in order, exactly the pieces between delimiters (without the empty ones when asked), so that nothing is lost or added; a comma list gives the set of its items, or of its numbers, and nothing else; word extraction steps through the blank-separated words of a text. A random string has the requested length and only characters of the given alphabet.',
  ['inputs'], 'every text, delimiter set, length and option',
  'none of these functions has a test',
  ['coda/string.h', 'coda/string.cpp', 'coda/string.hpp', 'coda/easy_parsing.cpp', 'coda/random.c'],
  [('digit loops', 'coda/string.h coda_atou/coda_atoi'), ('splitting loops', 'coda/string.cpp')],
  [], ['coda_atou', 'coda_atoi', 'coda_split_string', 'coda_get_stringset', 'coda_get_uint64set', 'get_next_word', 'coda_random_string'])
P('C25', 'Formatting appends or inserts exactly the formatted text, within limits',
  'Formatting to a new string yields exactly the formatted text whatever its length; the appending form adds exactly that text to what was there and returns its length. The limited forms add at most the given number of its leading characters, at the end or at the given position, return how many were added, and leave everything else in place; a position beyond the end is refused with -1 and no change.',
  ['inputs'], 'every text, existing content, limit and position, including lengths around and above the internal 32 KiB buffer',
  'no test calls these functions beyond a debug print; the size thresholds are never crossed',
  ['coda/string.hpp', 'coda/string.cpp'],
  [('second pass when the first buffer is too small', 'coda/string.cpp coda_strprintf/coda_strappend'), ('clamping to num', 'coda/string.cpp coda_strnappend/coda_strnprintf')],
  [], ['coda_strprintf', 'coda_strappend', 'coda_strnappend', 'coda_strnprintf'])
# ---------------------------------------------------------------- txml
P('C26', 'XML documents bind to members exactly as nested',
  'After loading a well-formed document every bound member holds the converted text of the element (or attribute) at its path: scalars the last occurrence, lists and vectors one item per occurrence in document order (empty elements included), nested structures recursively; elements and attributes that are not bound, or that occur at another depth, change nothing. Strings are taken verbatim after XML decoding, numbers as their decimal value, and booleans as the on/off words in any case.',
  ['inputs', 'programs'], 'every well-formed document over any binding of scalars, lists, vectors and nested structures',
  'the test loads one two-item document and checks only a count',
  ['coda/txml.hpp', 'coda/txml.cpp'],
  [('level stack matched against member names', 'coda/txml.hpp determineMember'), ('one push per occurrence', 'coda/txml.hpp setValue(list/vector)'), ('text reset at element boundaries', 'coda/txml.cpp begelement/endelement')],
  [('levels', 'path of the open elements', 'coda::txml_parser'), ('current_value', 'text collected since the last tag', 'coda::txml_parser')],
  ['members after load_from_string/load_from_file'])
P('C27', 'XML loading does not depend on how the text arrives, and rejects bad XML',
  'Loading from a file gives exactly the result of loading the same text from memory, whatever its length and wherever the internal read boundaries fall. A document that is not well formed (including an empty or truncated one), or a file that cannot be opened, raises an exception naming the problem and never passes silently or crashes.',
  ['inputs', 'fault_sequences'], 'every document text and size, every truncation point',
  'the test loads a single short string; file loading and errors are never exercised',
  ['coda/txml.cpp'],
  [('read loop with final flag', 'coda/txml.cpp load_from_file'), ('character data accumulated across callbacks', 'coda/txml.cpp characters'), ('error raising', 'coda/txml.cpp parse/raise')],
  [('current_value', 'text accumulated across chunks', 'coda::txml_parser')],
  ['load_from_file vs load_from_string', 'exceptions'])
# ---------------------------------------------------------------- process infrastructure
P('C28', 'A pid file has at most one owner',
  'However many processes create the same pid file at once, and wherever any of them is interrupted or dies, at most one creation succeeds until its owner (or, the owner dead, somebody) removes the file, and one does succeed if the file was absent or empty and no claimant died or met an error. The owner\'s decimal pid and a newline are then the file\'s whole contents; a failed attempt reports -1 and leaves the file and its contents as they were, with no descriptor or lock left behind.',
  ['schedules', 'crash_points', 'fault_sequences'], 'every interleaving of claims and removals by any number of processes, with death or a failing system call at any step',
  'no test covers it; exclusion depends on interleavings of system calls',
  ['coda/system.c', 'coda/daemon.c'],
  [('non-blocking exclusive flock plus emptiness check', 'coda/system.c coda_mkpidf')],
  [('the file', 'empty = free, non-empty = owned', 'the pid path')],
  ['coda_mkpidf', 'coda_daemon_stop', 'contents of the file'])
P('C29', 'Signals set exactly their flag and kill nobody',
  'After signal set-up, delivery of HUP, INT or TERM, USR1, USR2 sets exactly the change-config, terminate, rotate-log, change-binary flag respectively, and the other handled signals set none; none of them ends or stops the process. Slow system calls are restarted after the ordinary set-up and fail with EINTR after the no-restart one. Masking by a set of signal numbers affects exactly the handled signals in the set, and a masked signal takes effect when, and only when, it is unmasked. The interrupted code finds errno as it left it.',
  ['histories', 'schedules'], 'every sequence of deliveries, masks and unmasks of every handled signal under both set-ups',
  'no test installs the handlers',
  ['coda/daemon.h', 'coda/daemon.c'],
  [('table-driven handlers', 'coda/daemon.c CODA_SIG_LIST'), ('SA_RESTART cleared', 'coda/daemon.c CODA_SIG_INIT_NORESTART'), ('mask building', 'coda/daemon.c coda_signal_mask')],
  [('coda_terminate etc.', 'flags', 'coda/daemon.c')],
  ['the four flags', 'survival', 'EINTR'])
P('C30', 'Logging goes to the chosen file at the chosen level, across rotations',
  'After a log file is created, every line logged at the chosen level or more severe, and everything else written to stderr, is appended to that file, and less severe lines appear nowhere; each line carries the time, level name, thread name (or id) and message. Creating or rotating makes missing directories, never truncates an existing file, loses or splits no line of threads logging meanwhile, and on failure leaves log, level and path argument as they were. Each thread sees only the name it set itself, and level names map to their levels (unknown ones to info).',
  ['histories', 'schedules', 'fault_sequences'], 'every sequence of log calls, level changes, rotations and failures, from any number of threads',
  'no test includes the logger',
  ['coda/logger.h', 'coda/logger.c', 'coda/system.c'],
  [('dup2 of the new file over stderr', 'coda/logger.c log_create, coda/system.c coda_fdopen/coda_fdmove'), ('level filter', 'coda/logger.h log_fmt'), ('thread-specific name', 'coda/logger.c log_thread_name_*')],
  [('log_level', 'current threshold', 'coda/logger.c'), ('fd 2', 'the log', 'process')],
  ['contents of the log files', 'log_level', 'log_thread_name_get'])
P('C31', 'Daemon start-up and shutdown do exactly what the options ask',
  'Command-line parsing yields the last value given for each option in any order and spelling and fails on unknown options or missing arguments. Loading with the daemon option leaves the caller detached in a child that leads its own session with stdin and stdout on /dev/null, stderr untouched and the file-creation mask cleared, while the original process exits successfully; without it no process is created. Handlers are installed in either case, a requested pid file names the process that continues, and loading fails (-1) when it is taken; stopping removes exactly that file.',
  ['histories', 'configurations', 'fault_sequences'], 'every combination and order of options, every pre-existing state of the pid file, load/stop sequences',
  'no test links the daemon code',
  ['coda/daemon.h', 'coda/daemon.c'],
  [('getopt_long loop', 'coda/daemon.c coda_getopt_parse'), ('fork/setsid/dup2', 'coda/daemon.c coda_daemon_fork'), ('order signals, fork, pid file', 'coda/daemon.c coda_daemon_load')],
  [('pid file', 'ownership', 'opt->pid')],
  ['process tree, session, descriptors', 'pid file'])
P('C32', 'Path, descriptor and mapping helpers have exact effects',
  'Making a path creates every missing directory before the last component, leaves existing ones alone, fails when one cannot be made, and always hands back the path text unchanged. Moving or opening onto a chosen descriptor leaves the file there alone, closes what was there before, and leaks none; if the open fails the target keeps its old file. Mapping a file exposes exactly its bytes (resized first when a size is given), a shared writable mapping changes the file and a private one does not, an anonymous one is zero-filled, and failures leave no descriptor open. New directories are rwxr-xr-x and new files rw-r--r--, less the umask, which stays as it is.',
  ['inputs', 'fault_sequences', 'histories'], 'every path shape, pre-existing directory state, descriptor arrangement, file size and protection',
  'no test calls these helpers',
  ['coda/system.h', 'coda/system.c'],
  [('component loop', 'coda/system.c coda_mkpath'), ('dup2/close', 'coda/system.c coda_fdmove'), ('fstat/ftruncate/mmap', 'coda/system.c coda_mmap')],
  [], ['coda_mkpath', 'coda_fdmove', 'coda_fdopen', 'coda_mmap'])
P('C33', 'Broken-down UTC time is the civil calendar, and a sleep lasts as asked',
  'For every non-negative time the year, month (1-12), day, weekday, hour, minute and second computed are those of the proleptic Gregorian calendar in UTC, so that consecutive seconds give consecutive civil times across every minute, day, month, leap-year and century boundary. A sleep of n milliseconds that no signal interrupts returns 0 after n milliseconds, no earlier and not much later.',
  ['inputs'], 'every time_t from 1970 on; every length of sleep',
  'it has no test; calendar boundaries are sparse',
  ['coda/gmtime.h'],
  [('Gauss formula', 'coda/gmtime.h coda_gmtime'), ('split into seconds and nanoseconds', 'coda/gmtime.h coda_msleep')],
  [], ['coda_gmtime', 'coda_msleep'])
P('C34', 'Addresses parse exactly and socket helpers deliver what was sent',
  'Parsing a bounded dotted-quad text gives exactly that IPv4 address in network order, and INADDR_NONE for any text with another character, a number above 255 or not three dots. A listener made for an address and port accepts connections there, keeps as many waiting as asked, reports the peer whatever its address, and can be made again once the former one is closed; when a step fails the result is -1 and no socket is kept; bytes sent arrive unchanged and in order; blocking mode is as requested at each end; receiving is not aborted by a signal; sending to a closed peer returns an error instead of killing the process; a receive timeout of any length expires after that time.',
  ['inputs', 'histories', 'fault_sequences'], 'every address text and length; every sequence of connects, sends, receives, closes and interrupting signals',
  'no test includes socket.h',
  ['coda/socket.h'],
  [('octet loop', 'coda/socket.h coda_inet_addr'), ('MSG_NOSIGNAL, EINTR loop', 'coda/socket.h coda_unix_send/coda_unix_recv'), ('FIONBIO/SO_RCVTIMEO', 'coda/socket.h')],
  [], ['coda_inet_addr', 'coda_listen/accept/connect', 'coda_unix_send/recv'])
P('C35', 'Tone removal maps exactly the Vietnamese letters and keeps the rest',
  'In any UTF-8 text every Vietnamese letter with a tone or vowel mark becomes its plain ASCII base letter in the same case, combining marks disappear, and every other character of any encoded length is kept unchanged and in order; an incomplete character at the end is kept as it is. The result is never longer than the input, and applying it again changes nothing.',
  ['inputs'], 'every UTF-8 text, including one cut off inside its last character',
  'it has no test',
  ['coda/vietnam.hpp', 'coda/vietnam.cpp'],
  [('UTF-8 decoding loop', 'coda/vietnam.cpp'), ('letter table', 'coda/vietnam.cpp')],
  [], ['coda_remove_tones_utf8'])
# ---------------------------------------------------------------- small parts
P('C36', 'Logarithmic arrays file every number under its order of magnitude',
  'A logarithmic array of M positions (8 when not told otherwise) starts with every position zero for each built-in number type. Looking a number n>0 up yields position floor(log2 n), or the last position when that lies beyond it, for every 64-bit n, and the reference obtained is the same element reading by position sees. Exchanging two arrays exchanges every position and nothing else.',
  ['inputs', 'histories'], 'every number, array size and element type; every sequence of writes, reads and exchanges',
  'it has no test',
  ['coda/log_array.hpp'],
  [('shift loop with clamp', 'coda/log_array.hpp get_by_value'), ('swap loop', 'coda/log_array.hpp swap'), ('zeroing holders', 'coda/log_array.hpp log_array_value_holder')],
  [('data', 'one value per order of magnitude', 'coda::log_array::data')], ['log_array::get_by_value', 'log_array::get_at', 'log_array::swap'])
P('C37', 'An error says exactly the text it was made with',
  'An error made from a format says exactly the formatted text, cut at 4095 bytes, at once, from every copy, and when caught as std::exception after its arguments are gone; made with an error number it goes on with that number and the system\'s text for it in parentheses. Asking for the text of an error number gives the system\'s text for any number, from any number of threads at once, and a text once obtained does not change.',
  ['inputs', 'schedules'], 'every text length and format, every error number, any number of threads',
  'no test inspects an error text',
  ['coda/error.hpp', 'coda/error.h'],
  [('vsnprintf into the object', 'coda/error.hpp coda_error'), ('strerror_r into caller memory', 'coda/error.h')],
  [('msg', 'the text', 'coda_error::msg')], ['coda_error::what', 'coda_errno', 'coda_strerror'])
P('C38', 'The random generator is seeded once, or the failure is reported',
  'The first successful coda_random_init makes coda_random continue with a sequence that differs from the unseeded one and between processes, and returns 0; every later call returns 0 and does not disturb the sequence. A call that cannot get a seed from the system returns -1, leaves the sequence as it was, can be tried again, and leaves no descriptor open in either case.',
  ['histories', 'fault_sequences'], 'every sequence of initialisations and draws, with the device unavailable or unreadable at any of them',
  'no test links it',
  ['coda/random.h', 'coda/random.c'],
  [('seed from /dev/urandom once', 'coda/random.c coda_random_init')],
  [('coda_random_inited', 'whether the generator is seeded', 'coda/random.c')], ['coda_random_init', 'coda_random'])
P('C39', 'A completed use leaves nothing behind, a failed one holds nothing',
  'Whatever memory, descriptors, file mappings and shared-memory attachments a use of the library takes is given back by the end of that use: destroying or freeing an object, unmapping, disconnecting or closing returns all of it, a call that makes nothing lasting holds nothing when it is over, and a call that fails or throws, with whatever cause (missing file, mismatch, no descriptor left), leaves what the process holds as it was. Repeating any use any number of times therefore never exhausts the process.',
  ['histories', 'fault_sequences'], 'every part of the library, every sequence of uses, every point at which a call can fail',
  'tests run each call once and never look at what is left; leaks sit on error paths and in repeated use',
  ['coda/txml.cpp', 'coda/system.c', 'coda/socket.h', 'coda/logger.c', 'coda/shm_queue.tcc', 'coda/shm_hash_map.tcc', 'coda/url_parser.cpp', 'coda/stringstorage.c', 'coda/base58.c', 'coda/base64.c', 'coda/cache.tcc', 'coda/random.c'],
  [('parser and file closed on every path', 'coda/txml.cpp load_from_file'), ('descriptor closed when a later step fails', 'coda/socket.h, coda/system.c'), ('detach on mismatch', 'coda/shm_queue.tcc connect_shm, coda/shm_hash_map.tcc connect'), ('buffers freed', 'coda/url_parser.cpp reset, coda/stringstorage.c string_storage_free')],
  [('held', 'bytes allocated, descriptors, mappings and attachments of the process', 'the process')], ['allocator statistics', 'descriptor table', '/proc/self/maps', 'attachments'])

P('C40', 'Threads using the library at once do not disturb each other',
  'The result of a use of the library - text formatting, splitting, numbers, searches, URL encoding and decoding, parameters and headers, URL objects, base58/64, tones, calendar, addresses, errors, XML loads, path, mapping and pid file helpers, private caches, pools, arrays, storages and queues, thread names - depends only on what it was given, however its steps interleave with uses of the same or any other kind by other threads on their own data or on data all of them only read, the very first uses in a process included. Shared by design, and outside this: the seeded generator, the log, the signal flags, shared memory.',
  ['schedules', 'histories'], 'every pair of uses, every interleaving of their steps, first uses and later ones',
  'all tests are single threaded; a hidden static buffer, a table changed for the time of a call or one built on first use passes every one of them',
  ['coda/string.cpp', 'coda/url.cpp', 'coda/url_parser.cpp', 'coda/txml.cpp', 'coda/vietnam.cpp', 'coda/base58.c', 'coda/base64.c', 'coda/web64.c', 'coda/gmtime.h', 'coda/socket.h', 'coda/stringstorage.c', 'coda/system.c', 'coda/logger.c', 'coda/error.h'],
  [('buffers on the stack of the call', 'coda/string.cpp'), ('constant tables', 'coda/url.cpp, coda/base64.c, coda/base58.c'), ('pthread_once for the key of thread names', 'coda/logger.c'), ('parser state in the object', 'coda/txml.hpp txml_parser')],
  [('static data', 'tables and flags of the modules', 'coda/*.c, coda/*.cpp')], ['the result of every call'])


with open(OUT, 'w') as f:
    for r in rows:
        assert len(r['title']) <= 80, r['id']
        f.write(json.dumps(r, ensure_ascii=False) + '\n')
print(len(rows), 'properties')
