"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
K='pykeepass/pykeepass.py'; EN='pykeepass/entry.py'; GR='pykeepass/group.py'; BE='pykeepass/baseelement.py'
AT='pykeepass/attachment.py'; XP='pykeepass/xpath.py'; CO='pykeepass/kdbx_parsing/common.py'
K3='pykeepass/kdbx_parsing/kdbx3.py'; K4='pykeepass/kdbx_parsing/kdbx4.py'; KD='pykeepass/kdbx_parsing/kdbx.py'
TF='pykeepass/kdbx_parsing/twofish.py'; PT='pykeepass/kdbx_parsing/pytwofish.py'
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))

prop('C01','Saving and reopening returns exactly the same database content',
 "Whatever a database holds - group tree and order, every standard and custom text field with its protection mark, tags, icons, times, auto-type settings, history, attachments with their data, database name/description/default user - saving it to a path or a stream and reopening it with the same credentials gives back exactly that content (an empty text and an absent one count as equal). Saving does not change the open database, and saving it again, or saving the reopened copy, gives the same content again. This holds for KDBX3 and KDBX4, every cipher and key derivation, compressed or not.",
 ['inputs','histories','configurations'],
 "all database contents buildable through the API from any XML-legal text and any bytes, all supported file configurations, any number of save/reopen cycles, path or stream targets",
 "the tests save a dozen fixed files and check one or two ASCII values after a reload; they never compare whole databases, never vary text, and never combine content features with file configurations",
 [K,CO,K3,K4,EN,GR,BE],[('save/read',K+': PyKeePass.save, read'),('stream protection and XML codec',CO+': UnprotectedStream, XML'),('block and compression codec',CO+': Concatenated, Decompressed')],
 ['PyKeePass.save','PyKeePass()','all read accessors','PyKeePass.xml'])
prop('C02','Every conforming KDBX file is read as its writer meant it',
 "Opening a well-formed KDBX 3.x or 4.x file written by any other program, with the right credentials, shows exactly the groups, entries, fields, protection marks, times, history, attachments and metadata that the program put in it. This does not depend on how that file was laid out: cipher (AES, ChaCha20, Twofish), key derivation (AES-KDF, Argon2d, Argon2id with any parameters), compression, inner stream cipher, header field order, block sizes, XML indentation or escaping style.",
 ['inputs','configurations'],
 "all databases x all file layouts an independent KDBX writer can produce",
 "the tests open fifteen fixed files, all with one block, one layout and one writer's XML style, and mostly check only that opening does not raise",
 [KD,K3,K4,CO,TF,PT,K],[('container parsing',KD+', '+K3+', '+K4),('ciphers and key derivation',CO+': aes_kdf, compute_master, *Payload; '+K4+': compute_transformed; '+PT),('inner stream',CO+': Salsa20Stream, ChaCha20Stream')],
 ['PyKeePass()','all read accessors'])
prop('C03','Every saved file is a conforming KDBX file with unchanged settings',
 "Every file produced by saving is accepted by an independent, strict KDBX reader (signatures, header hash, header and block authentication, block sequence and terminator, padding, compression, inner stream, attachment references), which recovers from it exactly the content the open database had. Version, cipher, compression, key derivation method with its parameters and salt, and public header data are those of the file that was opened.",
 ['inputs','histories','configurations'],
 "all edited databases x all file configurations",
 "the tests only ever reopen a saved file with pykeepass itself, so an error made symmetrically in reading and writing cannot be seen",
 [KD,K3,K4,CO,TF,PT,K],[('container building',KD+', '+K3+', '+K4),('HMAC and block hashing',K4+': compute_header_hmac_hash, compute_payload_block_hash; '+K3+': PayloadBlock')],
 ['bytes written by PyKeePass.save'])
prop('C04','Protected fields are stored only encrypted, and marks never get lost',
 "In every saved file, each text field marked protected (passwords and OTP values of entries created through the API, custom properties set with protection, fields protected by another program, in live and history entries alike) appears in the decrypted payload only in inner-stream-encrypted form and decrypts in document order to its value. Editing a field keeps its mark unless a custom property is explicitly set otherwise, giving a password or OTP to an entry that has none marks it protected, and fields never marked are stored unmarked.",
 ['inputs','histories'],
 "all sequences of field edits, history snapshots, moves and saves, all values, both inner stream ciphers",
 "the tests check the in-memory mark after four edits of one entry, and never look at what is on disk",
 [EN,CO],[('mark handling',EN+': _set_string_field, password/otp setters, set_custom_property, is_custom_property_protected'),('inner stream encryption',CO+': UnprotectedStream')],
 ['bytes written by PyKeePass.save','Entry.is_custom_property_protected'])
prop('C05','A database opens with its own credentials and with no others',
 "A database opens with exactly the password / key file combination it was last saved under, and every other combination (other password, absent versus empty password, missing, extra or different key file) raises CredentialsError. After the password or key file is changed and the database saved, only the new combination opens it, and its content is the same.",
 ['inputs','histories','configurations'],
 "all pairs of credentials (any Unicode password or none, any key file or none), all file configurations, all sequences of credential changes",
 "the tests try seven fixed wrong combinations; credential-changing tests are shadowed by a duplicate class and never run",
 [K,CO,K3,K4],[('composite key',CO+': compute_key_composite'),('credential check',K4+': cred_check; '+K3+': cred_check; '+K+': read'),('credential setters',K+': password, keyfile')],
 ['PyKeePass()','PyKeePass.password','PyKeePass.keyfile','PyKeePass.save'])
prop('C06','Key files are interpreted as KeePass interprets them',
 "A key file contributes: for an XML key file version 1.x, its base64 data; for an XML key file version 2.x, its hex data, which is refused when the stored hash does not match; for a file of exactly 32 bytes, those bytes; for a file of exactly 64 hexadecimal digits, the bytes they encode; for every other file, including other XML and near-misses of these forms, the SHA-256 of its content. The result is the same whether the key file is given as a path string, a path object or a file object at any position, and however often it is used.",
 ['inputs'],
 "all key file contents, and all ways of passing them",
 "the tests use one file of each kind; near-miss lengths, letter cases, whitespace and foreign XML are never tried",
 [CO],[('key file parsing',CO+': compute_key_composite')],['PyKeePass() on files made by an independent writer'])
prop('C07','A damaged or tampered file never opens with different content',
 "Take any KDBX4 file, or the encrypted payload of any KDBX3 file, and change, remove, insert, swap or repeat any bytes or blocks of it without knowing the credentials: opening the result with the right credentials raises an exception or shows exactly the original content. A tampered KDBX4 header whose unkeyed hash was recomputed is rejected as well, and damaged key derivation settings are refused without being used.",
 ['inputs','fault_sequences'],
 "all files x all byte-level and block-level modifications, including truncation at any point",
 "no test modifies a database file at all",
 [K4,K3,KD,CO,K],[('header hash and HMAC',K4+': sha256, cred_check'),('block HMAC',K4+': compute_payload_block_hash'),('KDBX3 block hash',K3+': PayloadBlock, cred_check')],
 ['PyKeePass()'])
prop('C08','Bad files and credentials are reported by the documented errors',
 "Opening raises HeaderChecksumError for anything of 8 bytes or more that does not start with the KDBX signature and for a KDBX4 file whose header or stored header hash was altered but still parses, CredentialsError for wrong credentials or a wrong transformed key, and PayloadChecksumError when data or checksum of any payload block is altered. A sound file with the right credentials raises none of them.",
 ['inputs','configurations'],
 "all files, all positions of damage within each region, all block counts",
 "the tests cover wrong credentials and one non-database file; no test ever provokes a payload error or a damaged header",
 [K,K3,K4,KD],[('error mapping',K+': PyKeePass.read')],['PyKeePass()'])
prop('C09','A failed or interrupted save never damages the stored database',
 "If saving to a path fails (unwritable data, missing key file, full disk at any byte) or the process dies at any point during it, the path afterwards holds either the complete previous file, byte for byte, or the complete new database. A save that raises leaves the previous file in place, leaves no temporary file behind and keeps the open database usable, so that a later save succeeds; no save ever touches any other file in the directory, whatever the files are called.",
 ['crash_points','fault_sequences','inputs'],
 "all crash points and write-failure offsets during a save, all file names and directory contents, all database contents",
 "one test makes one save fail before the payload is written; no test fails or kills a save while data is being written, or has other files in the directory",
 [K],[('temporary file and rename',K+': PyKeePass.save')],['file system after PyKeePass.save'])
prop('C10','Entry and group operations do what they say and nothing else',
 "After any sequence of adding, editing, moving and deleting entries and groups, emptying groups, setting fields, tags, icons and database metadata, the database equals the obvious model: each operation has exactly its documented effect on its target and leaves every other group, entry, field, order and attachment as it was. New elements carry exactly the values given to them and are appended last in their group, moving keeps identity, content and history, and deleting a group deletes its whole subtree.",
 ['histories','inputs'],
 "all sequences of operations from any starting database, all argument values",
 "the tests run a handful of fixed sequences of three to six steps and look only at the element just touched",
 [K,EN,GR,BE],[('element construction',EN+': Entry; '+GR+': Group; '+BE),('tree edits',K+': add_*, move_*, delete_*, empty_group; '+GR+': append')],
 ['kp.entries','kp.groups','Group.entries','Group.subgroups','Entry/Group accessors','PyKeePass.xml'])
prop('C11','A rejected operation leaves the database unchanged',
 "When an operation is refused - text that XML cannot hold, values of the wrong type, reserved or missing property names, duplicate entry titles, moving a group below itself, trashing the root or the recycle bin, non-existent attachment ids - it raises, and the database content is exactly what it was before the call.",
 ['inputs','histories'],
 "all refused calls in all reachable database states",
 "the tests check that a few calls raise, never that nothing was lost",
 [EN,BE,K,GR],[('field replacement',EN+': _set_string_field; '+BE+': _set_subelement_text'),('guards',K+': add_entry, delete_binary, trash_*, _can_be_moved_to_recyclebin')],
 ['whole database before and after the raising call'])
prop('C12','Searches return exactly the matching elements, in document order',
 "find_entries, find_groups and find_attachments return exactly the elements matching every given criterion, in document order: text, auto-type and custom string criteria match by equality, or by regular-expression search with the given flags when regex is set; tags by occurrence in the tags text; uuid and attachment id always by equality. The scope (group, recursion, history included or not) is honoured, first=True returns the first of these or None, a criterion of None is ignored, and no character in a search value has any special meaning outside a regex.",
 ['inputs','histories'],
 "all databases x all combinations of criteria, values (any characters), scopes and modes",
 "the tests run about thirty fixed searches on one fixed database, none with quotes in the value",
 [K,XP],[('query construction',K+': _find, find_*; '+XP)],['find_entries','find_groups','find_attachments','kp.entries','kp.groups','kp.attachments'])
prop('C13','Paths name elements: path and lookup are inverse',
 "The path of an entry or group lists the names of its ancestors below the root followed by its own name, the root group's path is empty, and the parent of each element is the group listing it. In a database whose names are non-empty, looking up an element's path returns the first element in document order that has this path (the element itself when the path is unique), and a path that no element has returns None; no character in a name has a special meaning. History entries report the group of their entry, and a path through it that ends with their own title.",
 ['inputs','histories'],
 "all trees, all names (including slashes, quotes, brackets), after any sequence of moves and renames",
 "the tests check two fixed paths with plain ASCII names",
 [K,GR,EN,XP,BE],[('path computation',GR+': path; '+EN+': path; '+BE+': parentgroup'),('path lookup',K+': _find')],['Entry.path','Group.path','parentgroup','find_entries(path=)','find_groups(path=)'])
prop('C14','Entry order within a group follows list semantics',
 "The index of an entry is its position among the entries of its group, and reindexing an entry to position i (0 to n-1) makes it the i-th entry, keeping the relative order of all others and changing nothing else. This holds however entries, subgroups and group attributes were interleaved by earlier operations or by the program that wrote the file, and the order survives saving.",
 ['histories','inputs'],
 "all groups with any interleaving of children, all positions, any sequence of reindex / add / delete / rename",
 "one test reindexes freshly appended entries to 0 only and never reads an index",
 [EN,GR],[('index/reindex',EN+': index, reindex; '+GR+': _first_entry')],['Entry.index','Entry.reindex','Group.entries'])
prop('C15','Attachments always lead to the data they were created with',
 "Through any sequence of adding and deleting binaries, adding, renaming, re-pointing and deleting attachments, taking history snapshots, moving and deleting entries, saving and reopening, every attachment that still exists (in live and history entries) yields exactly the bytes of the binary it referred to, and binary ids are the positions in the list of binaries. Deleting a binary removes exactly the attachments referring to it and no others, deleting an attachment or entry leaves the binaries alone, and an attachment without data raises BinaryError.",
 ['histories','inputs'],
 "all operation sequences, any binary content including empty, compressed or not, protected or not, in both formats",
 "the tests delete one of two binaries once, with no history, and never save between",
 [K,AT,EN],[('binary pool',K+': binaries, add_binary, delete_binary'),('references',AT+'; '+EN+': add_attachment')],['kp.binaries','Attachment.data','kp.attachments','find_attachments','saved bytes'])
prop('C16','History entries are immutable snapshots in chronological order',
 "Taking a history snapshot appends one copy of the entry's current fields, times, tags and attachments to its history and changes nothing else; later edits, moves and snapshots of the entry never change earlier snapshots, which contain no nested history. Deleting one history item or all of them removes exactly these, history travels with its entry through moves and saves, and ordinary searches and listings never return history entries.",
 ['histories','inputs'],
 "all sequences of edits, snapshots, deletions, moves and save/reopen cycles",
 "one test takes two snapshots of three entries",
 [EN,K],[('snapshot',EN+': save_history, delete_history, history, HistoryEntry'),('exclusion from searches',K+': _find')],['Entry.history','find_entries(history=)','kp.entries'])
prop('C17','Trashing moves intact elements into one recycle bin',
 "Trashing an entry or group moves it, with all its content and identity, directly into the recycle bin named by the database metadata, creating the bin under the root only when none exists, and changes nothing else. The root group and the recycle bin itself are refused, trashing never creates a second bin while one exists, and everything outside is untouched by emptying the bin.",
 ['histories','inputs'],
 "all sequences of trash, restore (move), delete or empty bin, save and reopen, in all trees",
 "four fixed sequences; never a nested element, never the bin itself, never after a reopen",
 [K],[('recycle bin',K+': trash_entry, trash_group, _create_or_get_recyclebin_group, _can_be_moved_to_recyclebin, recyclebin_group')],['recyclebin_group','kp.entries','kp.groups'])
prop('C18','Custom properties behave as a dictionary separate from built-in fields',
 "For each entry, custom properties behave as a dictionary from any non-empty name to text: setting adds or overwrites exactly one, deleting removes exactly one, reading a missing one gives None, deleting a missing one raises AttributeError, and the listing has exactly the current pairs. Built-in field names are refused, built-in fields and custom properties never affect each other, each property's protection is what the last set asked for, and no character in a name or value has a special meaning.",
 ['histories','inputs'],
 "all sequences of set/get/delete over any names and values, interleaved with built-in field edits and save/reopen",
 "the tests use two ASCII keys once each",
 [EN],[('string fields',EN+': set_custom_property, get_custom_property, delete_custom_property, custom_properties, is_custom_property_protected')],['Entry custom property methods'])
prop('C19','Times denote the same instant however they were given or stored',
 "Setting the creation, access, modification or expiry time of an entry or group, or the credential change date, to any timezone-aware datetime and reading it back - at once or after saving and reopening, in KDBX3 and KDBX4 - gives a UTC datetime for the same instant to within one second, and leaves all other times alone. Timestamps written by other programs (base64 or ISO 8601 with Z or a numeric offset) read as the instant they denote, touching updates exactly the access time (and the modification time if asked) to now, and new elements are created with the current time.",
 ['inputs','configurations'],
 "all representable aware datetimes, all offsets and fractions, both formats",
 "the tests set two expiry times near now with whole seconds, and check other timezones only through add_entry",
 [K,BE],[('time codec',K+': _encode_time, _decode_time'),('time properties',BE)],['ctime','atime','mtime','expiry_time','credchange_date','touch'])
prop('C20','Expiry and credential-change policies follow their settings',
 "An entry or group is expired exactly when its expires flag is set and its expiry time lies in the past; adding an entry with an expiry time sets the flag and that time (naive datetimes meaning local time), adding one without leaves it unexpiring. A credential change is required (recommended) exactly when the set number of days is not -1 and more than that many whole days have passed since the last change, and changing password or key file resets that date to now.",
 ['inputs','configurations'],
 "all expiry times, flags, day counts and change dates",
 "expiry is tested for three offsets; the credential change test is shadowed by a duplicate class and never runs",
 [K,BE,EN],[('expiry',BE+': expires, expired, expiry_time'),('credential policy',K+': credchange_*')],['Entry.expired','credchange_required','credchange_recommended'])
prop('C21','Field references resolve to the referenced text',
 "A reference made to a field of an entry, placed anywhere in any text any number of times, dereferences to the surrounding text with each reference replaced by the current value of that field (an unset field counting as empty, a uuid as its upper-case hex form); references by title, username, password, url or notes take the first entry whose field equals the given text. Chains of references resolve through to plain text, text without references is returned unchanged, and a reference that matches no entry gives None.",
 ['inputs','histories'],
 "all acyclic reference graphs over all fields, any surrounding text",
 "the tests resolve two fixed chains by uuid of usernames and passwords",
 [K,EN],[('dereferencing',K+': deref; '+EN+': ref, deref')],['Entry.ref','Entry.deref','PyKeePass.deref'])
prop('C22','Content pykeepass does not interpret survives edits and saves',
 "Whatever else the file contains - elements, attributes and text of other programs' extensions in the metadata, groups, entries or history, custom icons and data, deleted-object records, unknown auto-type or times children, header comments and public custom data - is still there, unchanged and in the same place, after opening, editing other things through the API and saving.",
 ['inputs','histories'],
 "all files with arbitrary foreign XML at any place x all edits that do not target that place",
 "no test looks at anything pykeepass has no accessor for",
 [CO,K,EN,GR,BE],[('in-place XML editing',CO+': XML; '+EN+', '+GR+', '+BE),('raw header copy',KD+': RawCopy')],['saved bytes read by an independent reader'])
prop('C23','File settings are readable without the credentials',
 "Opening any sound file without decrypting it, with any or no credentials, succeeds and reports its version, cipher, key derivation method and salt exactly as stored, just as a full opening does; any access to the content then raises ValueError, and saving raises without touching the file.",
 ['inputs','configurations'],
 "all file configurations, minor versions, salts and supplied credentials",
 "two fixed files, cipher and version only",
 [K,KD,K3,K4],[('header accessors',K+': version, encryption_algorithm, kdf_algorithm, database_salt, payload')],['PyKeePass(decrypt=False)'])
prop('C24','The transformed key stands for the credentials',
 "The transformed key reported right after opening a database is the one the KDBX specification derives from its credentials, and passing it instead of them opens the file with the same content, also after edits are saved under unchanged credentials. Saving or creating a database with a given transformed key makes a file which that key opens and no other key does.",
 ['inputs','configurations','histories'],
 "all credentials, key derivations and contents; save/open sequences mixing credentials and transformed keys",
 "two fixed keys open two fixed files",
 [K,K3,K4],[('key caching',K+': transformed_key, save, create_database; '+K3+', '+K4+': compute_transformed')],['PyKeePass.transformed_key','PyKeePass(transformed_key=)','save(transformed_key=)','create_database(transformed_key=)'])
prop('C25','A new database is empty, independent and opens as requested',
 "Creating a database at a path or stream with any credentials (password, key file, both, or a transformed key) yields a file with one root group and no entries, which exactly those credentials open, and the returned object is that database: editing and saving it affects that file only. Creating any number of databases never changes the next one created.",
 ['inputs','histories'],
 "all credential forms, targets, and sequences of creations and edits",
 "no test calls create_database",
 [K],[('creation',K+': create_database')],['create_database'])
prop('C26','Identity: elements are equal exactly when they are the same element',
 "Every created entry and group gets a uuid different from all others; two objects for entries or groups compare equal (and hash equal) exactly when their uuids are equal, whichever way they were obtained and whatever else was edited, and comparing with anything else is not an error. Looking an element up by its uuid finds it until it is deleted, across edits, moves, saves and reopening, and a history snapshot is distinct from other snapshots whose modification time differs.",
 ['histories','inputs'],
 "all pairs of objects obtained by any route in any history",
 "three fixed comparisons",
 [BE,EN],[('identity',BE+': uuid, __hash__, __eq__; '+EN+': HistoryEntry.__hash__')],['==','hash','uuid','find_entries(uuid=)'])
prop('C27','The XML export is the database content in the clear',
 "At any moment, the XML export is a well-formed UTF-8 document that holds exactly the current content, with protected values in plain text, and writing it to a file writes the same document; exporting changes nothing, and exports of the same state are identical.",
 ['inputs','histories'],
 "all contents and edit histories",
 "the only export test is shadowed by a duplicate class and never runs; it looks at the first line",
 [K],[('export',K+': xml, dump_xml')],['PyKeePass.xml','PyKeePass.dump_xml'])
prop('C28','Size never matters',
 "Round trips, reading and writing stay exact for every size of content: payloads just below, at and above each multiple of the block size, empty and multi-megabyte texts and attachments, hundreds of entries, history items, attachments or nested groups.",
 ['inputs','configurations'],
 "all content sizes, in particular around block-size multiples after padding and compression, both formats, all ciphers",
 "all test databases fit in one block and nest three levels",
 [CO,K3,K4],[('block splitting',CO+': Concatenated; '+K3+': PayloadBlocks; '+K4+': EncryptedPayload'),('XML parser limits',CO+': XML')],['PyKeePass.save','PyKeePass()'])
prop('C29','Only saving writes; reloading returns the last saved state',
 "Opening, reading, searching, exporting, editing in memory and failed openings never change the database or key file on disk; reloading discards unsaved edits and shows exactly what was last saved to that path, and saving to another path or stream leaves the original file and the remembered path alone. A failed reload or read leaves the open database, its path and its credentials as they were. Opening from a path string, a path object or a stream gives the same database.",
 ['histories','inputs'],
 "all sequences of open, edit, save, save-as, reload",
 "the tests reload after saving in three places and never check files for unwanted changes",
 [K],[('file handling',K+': read, reload, save')],['files on disk','PyKeePass.reload','PyKeePass.filename'])
prop('C30','Open databases are independent of each other',
 "Any number of databases opened or created in one process, from the same file or different ones, behave exactly as if each were alone: no operation on one changes the content, credentials, binaries or later saves of another, also when each is used by a thread of its own at the same time.",
 ['histories'],
 "all interleavings of operations over several open databases, in one thread or several",
 "each test uses its objects separately",
 [K,CO,K3,K4,EN,GR],[('no shared state',K+': PyKeePass; '+CO+': DynamicDict')],['several PyKeePass objects'])

if __name__=='__main__':
    out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
    with open(out,'w') as f:
        for p in P:
            assert len(p['title'])<=80,(p['id'],len(p['title']))
            f.write(json.dumps(p,ensure_ascii=False)+'\n')
    print(len(P))
