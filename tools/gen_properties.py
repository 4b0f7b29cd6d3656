#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

BIN='src/binary/'; ST='src/stream/'; XM='src/xml/'

p('C01','A successful save reopens to the same database',
  "Whenever writing an unlocked archive reports success, opening the written bytes and unlocking them with the archive's key yields the same database name, description, custom data, protection flags, group tree, entries, field keys, values and value protection, history and times (to the second) as in memory. "
  "This holds for every supported cipher, compression, key derivation and inner stream setting, for any content and any size, and across any chain of save, reopen, edit and save again. "
  "Saving content that XML can represent (groups and histories nested at most 128 deep) with supported settings and a key to a working output succeeds; "
  "an absent value and an empty value count as the same, and the generator name is the writer's own.",
  ['inputs','histories','configurations'],
  'every database content and size (including around the 1 MiB block size and the 16 byte cipher block), every settings combination, every save/reopen/edit history',
  'The tests save one tiny database twice, uncompressed AES256 only: no gzip save, no Twofish or ChaCha20 save, nothing above one block, no second generation, no leading or trailing white space, no control characters, no empty protected values.',
  [BIN+'kdbx.rs',ST+'hmac.rs',ST+'block_cipher.rs',ST+'stream_cipher.rs',ST+'pipeline.rs',XM+'serialize.rs',XM+'parse.rs',XM+'decoders.rs','src/database.rs'],
  [('HMAC block writer and reader',ST+'hmac.rs'),('CBC padding and block buffering',ST+'block_cipher.rs'),('write pipeline finish order',ST+'pipeline.rs'),('XML writer and parser',XM+'serialize.rs, '+XM+'parse.rs')],
  [('block buffer','bytes not yet emitted as a block',ST+'hmac.rs HmacWriter'),('inner stream position','keystream consumed by protected values',XM+'parse.rs')],
  ['Kdbx::write','from_reader','Kdbx::unlock','Kdbx::database'])

p('C02','Another KDBX client reads a saved archive exactly',
  "Bytes written by a successful save form a well-formed KDBX 4 archive that an independent implementation of the published format, given the same key, opens to exactly the database that was in memory, protected values included. "
  "The stored archive consists of valid header fields, a header hash and header authentication code, and correctly numbered and authenticated data blocks that end with the empty terminator block and nothing after it.",
  ['inputs','configurations','histories'],
  'every database, every settings combination, every size and every earlier history of the archive',
  'Every existing save test reads the result back with the same library, so an error made symmetrically by writer and reader, or tolerated by the reader, is invisible.',
  [BIN+'kdbx.rs',BIN+'header.rs',BIN+'header_fields.rs',BIN+'variant_dict.rs',ST+'hmac.rs',ST+'pipeline.rs','src/crypto.rs',XM+'serialize.rs'],
  [('header serialisation',BIN+'header.rs'),('variant dictionary encoding',BIN+'variant_dict.rs'),('block numbering and authentication','src/crypto.rs, '+ST+'hmac.rs')],
  [], ['Kdbx::write output bytes'])

p('C03','Archives written by other clients are read exactly',
  "Any well-formed KDBX 3.1 or KDBX 4 archive produced by another client with supported settings opens with its key to exactly the stored header settings and the stored database. "
  "The result does not depend on free choices of that client: header field order, extra header fields, data block sizes, compression layout, XML indentation, entities, CDATA, comments, element order, or elements this library does not interpret.",
  ['inputs','configurations','histories'],
  'every legal encoding of every database by a format-conforming writer, both format versions',
  'The tests read ten fixture files from one client; all fit in a single block, only one is KDBX 3, and none is read with its content checked under another layout.',
  [BIN+'header.rs',BIN+'header_fields.rs',BIN+'kdbx.rs',ST+'hmac.rs',ST+'kdbx3.rs',ST+'block_cipher.rs',XM+'parse.rs',XM+'decoders.rs'],
  [('block readers',ST+'hmac.rs, '+ST+'kdbx3.rs'),('XML pull parser',XM+'parse.rs'),('header TLV parser',BIN+'header.rs')],
  [], ['from_reader','Kdbx::header','Kdbx::unlock','Kdbx::database'])

p('C04','A crash during a save never yields a silently wrong archive',
  "If a save is cut off at any point, whether it was writing to a fresh file or over the previous version of the archive, then opening what is on disk either fails or yields exactly the database of the previous save or of the interrupted one. "
  "After such a crash, saving again yields an archive that opens to the new state.",
  ['crash_points','histories','fault_sequences'],
  'every crash point of every save, in-place and fresh-file saves, with unsynced writes lost, torn or applied out of order, for any earlier save history',
  'No test interrupts a save; a mixture of old and new blocks needs a database of several blocks and a crash between particular writes.',
  [BIN+'kdbx.rs',ST+'hmac.rs','src/crypto.rs',BIN+'read.rs'],
  [('per-block authentication and terminator block',ST+'hmac.rs'),('header hash and authentication code',BIN+'kdbx.rs, '+BIN+'header.rs')],
  [('master seed','keys the block authentication of one save',BIN+'header.rs')],
  ['simulated disk content after crash','from_reader','Kdbx::unlock'])

p('C05','Damage to a stored KDBX 4 archive is never accepted',
  "Opening and unlocking, with the right key, a stored KDBX 4 archive that was altered in any way - bytes changed, inserted, removed, blocks dropped, repeated, reordered, truncated, or combined with parts of other archives under the same key - either fails or yields exactly the database that was saved in the archive whose header it carries. "
  "No altered content is ever returned as if it were genuine.",
  ['inputs','fault_sequences','histories'],
  'every alteration of the stored bytes of every archive, including splices between successive saves',
  'The tests contain no damaged file at all; which single byte or block rearrangement slips through depends on layout, size and settings.',
  [ST+'hmac.rs','src/crypto.rs',BIN+'kdbx.rs',BIN+'header.rs',BIN+'read.rs'],
  [('header hash check',BIN+'header.rs'),('header authentication check',BIN+'kdbx.rs'),('data block authentication with index',ST+'hmac.rs, src/crypto.rs')],
  [], ['from_reader','Kdbx::unlock','Kdbx::database'])

p('C06','Damage to a stored KDBX 3 archive is never accepted',
  "Opening and unlocking, with the right key, a stored KDBX 3 archive that records the hash of its header (as 3.1 clients do) and that suffered any storage damage - bytes changed, removed, inserted, sectors lost or zeroed, truncation - either fails or yields exactly the stored database. "
  "In particular damaged header fields never lead to wrong field values.",
  ['inputs','fault_sequences'],
  'every storage damage at every position of every KDBX 3 archive with a header hash (key derivation rounds up to a bound, so that the damaged file can be tried)',
  'The single KDBX 3 fixture is only opened undamaged, and never unlocked by a test.',
  [ST+'kdbx3.rs',BIN+'kdbx.rs',BIN+'header.rs',XM+'parse.rs'],
  [('start bytes check',ST+'pipeline.rs'),('hashed block check',ST+'kdbx3.rs'),('header hash',BIN+'kdbx.rs')],
  [], ['from_reader','Kdbx::unlock','Kdbx::database'])

p('C07','Reading depends on the bytes, not on how they arrive',
  "Opening an archive from a file or any other input gives the same result - the same archive content and settings, or the same kind of failure - however the input splits the bytes into reads and however often reads are interrupted and have to be repeated. "
  "The number of reads stays bounded by the number of bytes and interruptions.",
  ['inputs','schedules','fault_sequences'],
  'every byte string and every sequence of read sizes and interruptions',
  'Tests read from local files only, where each read is filled completely.',
  [BIN+'read.rs','src/utils.rs',BIN+'header.rs',BIN+'variant_dict.rs'],
  [('header bytes recorded while they are read','src/utils.rs'),('exact reads',BIN+'header.rs')],
  [('recorded header bytes','input to the header hash','src/utils.rs')],
  ['from_reader','open'])

p('C08','An input error or early end of input is always reported',
  "If the input fails or ends at any point while an archive is being opened, opening reports a failure and never returns an archive built from part of the input; an input that ends inside the stored data (for KDBX 3: before its final block is complete) is reported as failure at the latest when unlocking. "
  "Opening the same archive again from a healthy input succeeds.",
  ['crash_points','fault_sequences','inputs'],
  'every position and kind of input failure, through readers and through files',
  'No test has a failing input; a swallowed error shows only at the exact read that fails.',
  [BIN+'read.rs','src/utils.rs',BIN+'header.rs'],
  [('error propagation',BIN+'read.rs')],
  [], ['from_reader','open','Kdbx::unlock'])

p('C09','Output errors are always reported and a retried save succeeds',
  "A save reports success only if the output accepted every byte and its final flush succeeded; short and interrupted writes change nothing about the stored result. "
  "A failed save leaves the archive in memory unchanged, so that saving again to a working output succeeds and reopens to the same database.",
  ['fault_sequences','crash_points','configurations'],
  'every position and kind of output failure, every write split, every settings combination, for unlocked and locked archives',
  'Tests write to memory only, where writes never fail, never split and flush has no effect.',
  [BIN+'kdbx.rs',ST+'pipeline.rs',BIN+'header.rs'],
  [('error propagation and final flush',BIN+'kdbx.rs')],
  [], ['Kdbx::write','sink bytes'])

p('C10','Only the right credentials unlock, and a failed try costs nothing',
  "Unlocking succeeds only with exactly the password and key file the archive was saved with, whatever was tried before; any other combination, including a missing, added, swapped or slightly different part, fails. Credentials that the format defines to give the same key count as the same. "
  "A failed unlock hands back the locked archive unchanged, so that a later try with the right credentials yields the stored database.",
  ['inputs','histories','configurations'],
  'every pair of right and tried credentials, every sequence of tries, every key derivation the library accepts, including unknown ones',
  'Tests unlock with the right credentials only; they never try a wrong password, and never twice.',
  ['src/crypto.rs',BIN+'kdbx.rs',ST+'pipeline.rs'],
  [('composite key','src/crypto.rs'),('header authentication',BIN+'kdbx.rs'),('start bytes',ST+'pipeline.rs')],
  [], ['Kdbx::unlock','FailedUnlock'])

p('C11','Copying a locked archive preserves it',
  "Writing a locked archive that was opened from any well-formed source, without unlocking it, stores an archive that opens with the same key to the same settings, header data and database as the original. "
  "This holds for both format versions, after failed unlock attempts, and over any number of copies of copies; an archive whose cipher, compression or key derivation the library cannot unlock is copied without any change.",
  ['inputs','histories','configurations'],
  'every archive of either version with any header field order and extra fields, every chain of copies and failed unlocks',
  'No test writes a locked archive.',
  [BIN+'kdbx.rs',BIN+'header.rs',BIN+'read.rs'],
  [('original header bytes kept with the archive',BIN+'kdbx.rs Locked')],
  [('header bytes','what the stored authentication code covers',BIN+'kdbx.rs')],
  ['Kdbx<Locked>::write','from_reader','Kdbx::unlock'])

p('C12','After any change of key or settings the last key alone opens a save',
  "However keys and header settings of an unlocked archive are changed, in any order and with any number of saves, failures and reopens in between, every save that reports success opens with the key most recently set successfully and with no earlier or other key, and its header states the settings in force. "
  "A save that cannot honour its settings fails instead, without a panic and without writing anything.",
  ['histories','configurations','fault_sequences'],
  'every sequence of set key, change settings, save, fail and reopen',
  'Tests set the key once, after all settings, and save once.',
  [BIN+'kdbx.rs','src/crypto.rs',BIN+'header_fields.rs'],
  [('key derived from credentials and key derivation settings',BIN+'kdbx.rs')],
  [('derived key','depends on the key derivation settings in force when it was computed',BIN+'kdbx.rs Unlocked')],
  ['Kdbx::set_key','Kdbx::header_mut','Kdbx::write'])

p('C13','No stored bytes can crash, hang or exhaust the reader',
  "Opening and unlocking any byte string - damaged, truncated, or deliberately malformed by someone who knows the key - ends in success or an ordinary error, never in a panic, abort or endless loop, whatever state the standard streams of the process are in, and the database it returns can be used. "
  "Memory use stays in proportion to the stored data (at its decompressed size), apart from the memory the key derivation settings ask for.",
  ['inputs','fault_sequences'],
  'every byte string; malformed content is also generated below valid hashes, authentication codes, encryption and compression (key derivation cost and nesting depth up to stated bounds)',
  'No test feeds malformed data; malformed content behind a valid authentication code needs a writer that produces it.',
  [BIN+'read.rs',BIN+'header.rs',BIN+'header_fields.rs',BIN+'variant_dict.rs','src/utils.rs','src/crypto.rs',ST+'hmac.rs',ST+'kdbx3.rs',ST+'pipeline.rs',XM+'parse.rs',XM+'decoders.rs'],
  [('length and type checks',BIN+'header.rs, '+BIN+'variant_dict.rs'),('XML parser loops',XM+'parse.rs')],
  [], ['from_reader','Kdbx::unlock','parse_xml','allocator'])

p('C14','Concurrent use of archives does not interfere',
  "Any number of threads opening, unlocking, editing and saving their own archives, and saving or reading one shared archive, observe the same results as if each had run alone. "
  "No interleaving makes one session see or store another session's keys or content, or block for ever.",
  ['schedules','histories'],
  'every interleaving of the sessions at input, output, randomness, clock and allocation points',
  'All tests use one archive at a time.',
  ['src/crypto.rs',BIN+'kdbx.rs',ST+'pipeline.rs',XM+'serialize.rs',XM+'parse.rs'],
  [('no shared state: ciphers and buffers are created per call',ST+'pipeline.rs, '+BIN+'kdbx.rs')],
  [], ['results of each session'])

p('C15','Secrets are fresh operating system randomness, for every save',
  "The master seed, encryption IV, key derivation salt and inner stream key of a new archive, and the identifiers of new groups and entries, come from the operating system's random source: they never repeat, are never constant or derived from the clock, and if the source fails no archive is produced with predictable ones. "
  "No two saves of differing data encrypt under the same seed and IV.",
  ['histories','fault_sequences','schedules'],
  'every history of creating and saving archives, every behaviour of the random source (short, interrupted or failing reads), every clock',
  'Tests never look at the generated secrets; reuse or predictability shows only across executions with different random sources.',
  [BIN+'header.rs',BIN+'kdbx.rs','src/database.rs'],
  [('OS random number generator',BIN+'header.rs'),('random identifiers','src/database.rs')],
  [], ['KdbxHeader','KdbxInnerHeader','stored header fields','uuid()'])

p('C16','Timestamps of new items are the current UTC time',
  "A newly created group or entry carries the current time in UTC, to the second, in all its times, whatever the time zone of the process and however the system clock has been moved; no later save, reopen or edit that does not set a time changes any stored time. "
  "Items read from an archive carry the stored times, not the time of reading.",
  ['histories','configurations','schedules'],
  'every clock value and jump, every time zone including daylight saving changes, every save and reopen history',
  'Tests set all times explicitly, or ignore them.',
  ['src/database.rs',XM+'decoders.rs',XM+'parse.rs',XM+'serialize.rs'],
  [('default times','src/database.rs'),('time encoding',XM+'decoders.rs')],
  [], ['Times of groups and entries'])

p('C17','Editing follows a simple tree model through saves and reopens',
  "Any sequence of editing operations - adding, removing, moving, finding and listing groups and entries, setting, renaming, clearing, protecting and removing fields, titles, users, passwords, URLs, one-time-password settings, versioning entries, editing history and metadata - has exactly the effect of the same operations on a plain ordered tree, with saves and reopens at any point making no difference. "
  "A search returns the first match in document order, a group's entries before its child groups. A field stays protected until it is explicitly unprotected.",
  ['histories'],
  'every sequence of editing operations with saves, failed saves and reopens interleaved',
  'Tests perform a handful of single edits on an in-memory database and never edit after reopening.',
  ['src/database.rs',XM+'parse.rs',XM+'serialize.rs'],
  [('group, entry, field and history operations','src/database.rs')],
  [('field value and protection','four-way state of a value','src/database.rs Value')],
  ['Database, Group, Entry, Field, History API'])

p('C18','No secret ever reaches the output in the clear',
  "At no point of any save, completed, failed or interrupted, do the bytes handed to the output, or printed to the standard streams, contain a database text, field value, password or key file content in the clear. "
  "In the XML inside an archive the values of protected fields appear only encrypted, and equal values do not encrypt equally.",
  ['inputs','crash_points','configurations'],
  'every database and settings combination, every write prefix of every save, locked and unlocked archives',
  'Tests never look at the written bytes.',
  [ST+'pipeline.rs',XM+'serialize.rs',BIN+'kdbx.rs'],
  [('encryption of the stream',ST+'pipeline.rs'),('inner stream encryption of protected values',XM+'serialize.rs')],
  [], ['sink bytes','Kdbx::raw_xml'])

p('C19','Data the library does not interpret survives save and reopen',
  "Header fields and stored binaries that the library does not interpret, comments, public custom data, unknown fields, format minor version and all header settings of an opened KDBX 4 archive are present unchanged and in the same order after any number of save, edit and reopen cycles. "
  "Changing settings or content does not disturb them.",
  ['inputs','histories'],
  'every set of extra outer and inner header fields of any size and content, every history of saves, edits and settings changes',
  'The fixtures have no extra header fields and no test saves an opened archive.',
  [BIN+'header.rs',BIN+'kdbx.rs',BIN+'variant_dict.rs'],
  [('other headers carried along',BIN+'header.rs')],
  [], ['Kdbx::header','Kdbx::inner_header','stored bytes'])

p('C20','The raw XML of an archive is exactly the stored document',
  "The raw XML offered for an opened archive is byte for byte the document that was stored, for both format versions, any document length, block layout, cipher and compression, and whatever follows the document in the padding or container. "
  "An archive that was created in memory offers none.",
  ['inputs','configurations'],
  'every document, size, block layout and settings combination of both format versions',
  'No test looks at the raw XML of an uncompressed archive beyond its beginning.',
  [ST+'block_cipher.rs',ST+'hmac.rs',ST+'kdbx3.rs',BIN+'kdbx.rs'],
  [('padding removal',ST+'block_cipher.rs'),('block reassembly',ST+'hmac.rs, '+ST+'kdbx3.rs')],
  [], ['Kdbx::raw_xml'])

p('C21','XML export and import lose nothing and report every stream fault',
  "Exporting a database as XML and importing it with the same stream cipher yields an equal database, however the streams split, interrupt or buffer their bytes. "
  "An export or import whose stream fails or ends early reports an error, an export that cannot represent its data fails instead of writing a document that cannot be imported, and import never returns part of a document.",
  ['inputs','fault_sequences','crash_points'],
  'every database, cipher, fragmentation and fault position of import and export streams',
  'One test compares one exported document with a fixture, over a memory buffer.',
  [XM+'parse.rs',XM+'serialize.rs',XM+'decoders.rs'],
  [('XML writer',XM+'serialize.rs'),('XML parser',XM+'parse.rs')],
  [], ['write_xml','parse_xml'])

p('C22','Identifier and date text encodings are exact inverses',
  "Encoding any identifier or any representable date (to the second) as archive text and decoding it gives the same value back, and both date forms used by the two format versions decode to the same instant.",
  ['inputs'],
  'every identifier and date',
  'Tests cover a few dates.',
  [XM+'decoders.rs'], [('encoders and decoders',XM+'decoders.rs')], [], ['decode_datetime','encode_datetime','decode_uuid','encode_uuid'])

p('C23','Key derivation matches the published algorithms',
  "For every set of credentials and every accepted key derivation setting the derived keys equal those defined by the AES key derivation and Argon2 specifications, for all cost parameters.",
  ['inputs','configurations'],
  'every credential and every cost parameter',
  'Tests unlock a handful of fixtures with fixed parameters.',
  ['src/crypto.rs'], [('key derivation','src/crypto.rs')], [], ['Kdbx::unlock'])

p('C24','The command line programs show exactly what is stored, or fail',
  "kdbx-decrypt prints exactly the stored XML document and a line end, kdbx-parse exactly the database the library reads and kdbx-dump-header every setting of the header, opening the named file with the given password, or with 'kdbxrs' if none is given. "
  "However reads of the file and writes of the output are split or interrupted, success is reported only after all of it was written; if the file cannot be read, is damaged or does not open with the password, or the output cannot be written, the program ends with failure, and prints nothing to the standard output when nothing was opened. "
  "kdbx-generate reports success only after it stored a complete archive in kdbx_rs.kdbx, replacing what was there, that opens with its password to its sample database, and without a file argument the others show their usage.",
  ['inputs','fault_sequences','configurations'],
  'every archive, password argument, file fault, output fault and program',
  'No test runs the programs at all.',
  ['src/bin/kdbx_decrypt.rs','src/bin/kdbx_parse.rs','src/bin/kdbx_dump_header.rs','src/bin/kdbx_generate.rs','src/lib.rs'],
  [('decrypting program','src/bin/kdbx_decrypt.rs'),('listing program','src/bin/kdbx_parse.rs'),('header program','src/bin/kdbx_dump_header.rs'),('generating program','src/bin/kdbx_generate.rs')],
  [], ['standard output','exit status','kdbx_rs.kdbx'])

p('C25','Failures are reported as what they are',
  "An error of the input stream or file while opening, or of the output while saving or copying, is reported as an input or output error of the same kind; input that ends inside the header as an unexpected end; "
  "data with another signature, another format signature or another major version, and a KDBX 4 header that does not match its checksum, are each reported as that. "
  "Wrong credentials are reported as such (a failed header authentication for KDBX 4, failed start bytes for KDBX 3), and damage behind the authenticated header of a KDBX 4 archive is never blamed on the credentials. "
  "Saving without a key and text that XML cannot hold are reported as that, and the wrapper error type keeps each error under its own kind.",
  ['inputs','fault_sequences'],
  'every archive, kind of error, place of the fault and wrong credential',
  'Tests look at two error values of one archive each and inject no error at all.',
  [BIN+'errors.rs',BIN+'kdbx.rs',BIN+'read.rs',BIN+'header.rs',ST+'pipeline.rs','src/errors.rs'],
  [('error types',BIN+'errors.rs, src/errors.rs'),('start bytes check',ST+'pipeline.rs'),('header authentication',BIN+'kdbx.rs')],
  [], ['OpenError','UnlockError','WriteError','Error'])

p('C26','A long-running process gives back what it takes',
  "However many sessions a process runs one after another - create or open an archive, fail to unlock it, unlock, edit, export, save to working and failing outputs, drop it at any stage, also with damaged archives and failing files - every opened file is closed at the end of its session, and the memory kept after a session does not grow with the number of sessions. "
  "The same holds for an archive that stays open over many saves and for one that stays locked over many failed unlocks. Caches of a bounded size are allowed.",
  ['histories','fault_sequences'],
  'every sequence of sessions, faults and places where a session ends',
  'Every test runs one short session and looks at its result only.',
  [BIN+'kdbx.rs',ST+'pipeline.rs','src/crypto.rs','src/lib.rs'],
  [('opening files','src/lib.rs'),('streams of a save','src/stream/pipeline.rs')],
  [], ['memory in use','open files'])

p('C27','The library touches nothing but what it was given',
  "Opening, unlocking, editing, exporting, importing and saving, whether they succeed or fail, write nothing to the standard streams of the process, create, change, rename or remove no file or folder, open no file but the one named and that only for reading, start no process, open no network connection, and leave the environment, the current folder and everything else the process shares as they are. "
  "What is stored goes only to the output that was given. The command line program that generates an archive is the only part that creates a file.",
  ['inputs','fault_sequences','histories'],
  'every operation of the library on every archive, including failing and damaged ones',
  'Tests look at results only, never at what a call did besides.',
  [BIN+'read.rs',BIN+'kdbx.rs',BIN+'header.rs',BIN+'variant_dict.rs',XM+'parse.rs','src/lib.rs'],
  [('opening files',BIN+'read.rs'),('reading headers',BIN+'header.rs'),('reading documents',XM+'parse.rs')],
  [], ['standard output','standard error','files','processes','environment'])

p('C28','Work grows in proportion to the data',
  "Time and memory taken by opening, unlocking, editing, comparing, copying, exporting, importing and saving grow about in proportion to the size of the data (a logarithmic factor allowed): to the number of entries, groups, fields, versions, custom data and binaries, to the length of texts and header fields and to the number and size of blocks, and this however small the pieces are in which streams take and give the data.",
  ['inputs','histories'],
  'every shape of database and archive, at every size',
  'Tests use databases of a few entries, where a quadratic step costs nothing.',
  [ST+'hmac.rs',ST+'kdbx3.rs',ST+'block_cipher.rs',BIN+'header.rs',XM+'parse.rs',XM+'serialize.rs','src/database.rs'],
  [('block streams',ST+'hmac.rs, '+ST+'kdbx3.rs'),('database model','src/database.rs'),('document reader',XM+'parse.rs')],
  [], ['time of a call','memory taken'])

p('C29','A panic in the application\'s own code leaves archives usable',
  "When a stream, a search condition, a text or a cipher that the application hands to the library panics at any point of a call, the panic reaches the caller: it neither ends the process nor is turned into a result, also if the stream panics again or fails when it is used once more. "
  "Every database and archive the application still holds is as it was before that call, other archives are not affected, and all of them can be read, edited, saved, copied and unlocked afterwards as if the call had not happened.",
  ['histories','fault_sequences'],
  'every call that runs code of the application, every point at which that code panics, every later use',
  'No test has a stream, condition or text that panics.',
  [BIN+'kdbx.rs',BIN+'read.rs',ST+'pipeline.rs',ST+'hmac.rs',ST+'block_cipher.rs',XM+'parse.rs',XM+'serialize.rs','src/database.rs'],
  [('saving',BIN+'kdbx.rs'),('streams of a save',ST+'pipeline.rs'),('editing and searching','src/database.rs')],
  [], ['Kdbx::write','from_reader','Database','Group','Entry'])

p('C30','An archive shared by many clients holds what its last writer stored',
  "However devices using this library and other KDBX 4 clients take turns with one stored archive - opening it by stream or by name, unlocking with known or outdated credentials, editing, taking entries and groups over from what another device holds, changing key and settings, saving, failing to save, putting an older version back unopened - the stored archive always is exactly what its last writer held: content, settings, minor version, and header data of other clients, opened by its key and by no earlier one. "
  "What a device still holds in memory stays as it is whatever the others do, and an entry or group taken over is complete.",
  ['histories','fault_sequences','schedules'],
  'every sequence of turns of devices and other clients, over many generations of the archive',
  'Tests have one writer and one generation.',
  [BIN+'kdbx.rs',BIN+'header.rs',BIN+'read.rs','src/database.rs',XM+'parse.rs',XM+'serialize.rs'],
  [('saving and unlocking',BIN+'kdbx.rs'),('header data of others',BIN+'header.rs'),('database model','src/database.rs')],
  [], ['stored archive','Database'])

p('C31','Errors reveal no secrets',
  "Whatever makes opening, unlocking, setting a key, saving, copying, exporting or importing fail - failing streams, wrong credentials, damage, malformed documents and headers made with the right key, unsuitable text, unsupported settings - neither the display form nor the debug form of the error, of its sources or of the error it is wrapped in contains the password, key file content, a key or hash made of them, or the value of a field or of custom data, be it as text, in hexadecimal, in base64 or as a list of bytes. "
  "The same holds for the debug form of the locked archive that a failed unlock hands back. Field names, settings, positions and what the format stores in the clear may appear.",
  ['inputs','fault_sequences'],
  'every archive, document and credential, every way in which an operation fails',
  'Tests compare a few error variants and never look for secrets in them.',
  [BIN+'errors.rs',BIN+'kdbx.rs',XM+'parse.rs',XM+'serialize.rs','src/crypto.rs','src/errors.rs',ST+'random.rs'],
  [('error types',BIN+'errors.rs, src/errors.rs'),('values that do not decrypt',XM+'parse.rs'),('key derivation','src/crypto.rs')],
  [], ['Display of errors','Debug of errors','source of errors'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False)+'\n')
print(len(P))
