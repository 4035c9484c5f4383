"""writes properties.jsonl and MANIFEST.json for the properties that have a check"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PK, EN, GR, BA, AT, XP = ('pykeepass/' + f for f in ('pykeepass.py', 'entry.py', 'group.py', 'baseelement.py', 'attachment.py', 'xpath.py'))
CO, K3, K4, KX, TW, PT = ('pykeepass/kdbx_parsing/' + f for f in ('common.py', 'kdbx3.py', 'kdbx4.py', 'kdbx.py', 'twofish.py', 'pytwofish.py'))
I, H, C, F, X = 'inputs', 'histories', 'configurations', 'fault_sequences', 'crash_points'
P = {}


def prop(id, title, statement, over, text, why, files, mech):
    P[id] = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
             'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'hook_needed': None}}


prop('C01', 'Saving and reopening preserves all data',
     'Whatever was put into a database (text fields, custom properties, groups, history, times, attachments with their flags, database settings) is there, unchanged and in the same order, when the database is saved to a path or stream and opened again with its credentials, for KDBX3 and KDBX4, every cipher, key derivation and compression setting. The version, cipher and key derivation stay the same, and saving does not change the database in memory.',
     [I, H, C], 'every text that XML can carry, every attachment content, every history of operations, every supported configuration',
     'The tests save and reopen a handful of fixed values in a few configurations; they cannot cover every text, length, history and combination.',
     [PK, CO, K3, K4, KX], [('serialisation both ways', 'KDBX.build/parse, XML, UnprotectedStream, DecryptedPayload, Decompressed, Concatenated'), ('save and read', PK + ': save, read, reload')])
prop('C02', 'Only the right credentials open a database',
     'Opening a database with a password, key file or transformed key other than the one it was saved with (including a missing, additional or empty one) raises CredentialsError and shows no content; opening it with the right ones always succeeds.',
     [I, C, H], 'every pair of passwords, key files or transformed keys; every format, cipher and key derivation; after any change of credentials',
     'The tests try a few wrong passwords on fixed files.', [PK, CO, K3, K4],
     [('header HMAC and start bytes checks', K4 + ' / ' + K3 + ': cred_check'), ('error mapping', PK + ': read')])
prop('C03', 'A changed file never opens with other content',
     'A KDBX4 file in which any byte of header, hashes or payload was changed, which was truncated, or whose blocks were removed, repeated or exchanged, does not open. A KDBX3 file with a changed or truncated payload either fails to open or shows exactly the saved content.',
     [I, F], 'every position and every replacement byte, every truncation, every rearrangement of payload blocks',
     'The tests corrupt one byte in one place.', [PK, KX, K3, K4, CO],
     [('header hash, header HMAC, block HMAC with index', K4 + ': Body, compute_payload_block_hash, EncryptedPayloadBlock'), ('block hashes', K3 + ': PayloadBlock')])
prop('C04', 'Payloads of every length are framed as the format says',
     'A payload of any length is written as blocks of at most 1 MiB with consecutive indices, correct lengths and hashes, ending with one empty block, and reads back whole; files whose payload is split into blocks of any other sizes read the same.',
     [I], 'every payload length and every split into blocks within the bound', 'The test databases have one small block.', [CO, K3, K4],
     [('block splitting', CO + ': Concatenated'), ('block structure and hashes', K3 + ': PayloadBlock; ' + K4 + ': EncryptedPayloadBlock')])
prop('C05', 'Password and key file combine into the key as specified',
     'The composite key is SHA-256 over the SHA-256 of the UTF-8 password (if there is one) followed by the key from the key file (if there is one): the stored key of an XML key file version 1.0 or 2.0, the file itself if it has 32 bytes, the decoded file if it is 64 hexadecimal digits, and its SHA-256 otherwise. A version 2.0 key file whose checksum does not match is refused, and path and stream give the same key whatever the position of the stream.',
     [I, C], 'every password, every key file content and length, path, pathlib and stream sources', 'The tests have five fixed key files.', [CO],
     [('compute_key_composite', CO)])
prop('C06', 'Keys and files follow the published KDBX format',
     'The transformed key, master key and HMAC keys are computed from credentials, salts, seeds and key derivation parameters of the header as the KDBX format defines, so that a file written by the published format opens and shows its content, and what save writes can be decrypted and verified by the published format. Header fields and parameters that others put into the file are kept, and elements of a fixed type (times, booleans, numbers, UUIDs) are written as such. A transformed key given by the caller is used as it is.',
     [I, C], 'every password, salt, seed, IV, key derivation parameter, order of header items, cipher, compression',
     'The tests open a dozen fixed files; parameters and orders they do not contain are not reached, and the writer is only checked by the reader.',
     [CO, K3, K4, KX, PK], [('key derivation', K3 + ' / ' + K4 + ': compute_transformed; ' + CO + ': aes_kdf, compute_master'), ('header parsing', 'DynamicHeader, VariantDictionary')])
prop('C07', 'Twofish encrypts as specified and decrypts what it encrypts',
     'For every key and every block the Twofish implementation computes the function of the Twofish specification, and decryption is its inverse.',
     [I], 'every 128-bit block and every 256-bit key, by parts of the cipher', 'One test vector and a few files are 1 in 2^384 cases.', [PT],
     [('key schedule, h function, rounds', PT + ': set_key, h_fun, mds_rem, gen_*tab, encrypt, decrypt')])
prop('C08', 'Block chaining and padding are exact and reversible',
     'Twofish-CBC computes C[i] = E(P[i] xor C[i-1]) with C[-1] = IV, also when data comes in pieces of any sizes, decryption inverts it, and padding added on saving is exactly what is removed on reading, for every length.',
     [I, H], 'every IV, every data, every split into pieces, every length modulo the block size', 'The tests decrypt whole files only.', [TW, CO],
     [('CBC.update, BlockCipher', TW), ('pad/unpad', CO + ': DecryptedPayload')])
prop('C09', 'Protected values are encrypted on save and stay readable',
     'Every value marked as protected, in entries, in history and (KDBX3) among the binaries, of whatever content, is stored encrypted with the inner stream in document order, the mark is kept and nothing else is encrypted; on reading, the same values come back whatever their number, order and length. Saving does not alter the database in memory.',
     [I, H], 'every number, order, length and content of protected and unprotected values within the bounds, both stream ciphers',
     'The tests check single protected fields on fixed files.', [CO, EN],
     [('UnprotectedStream, Salsa20Stream, ChaCha20Stream', CO), ('Protected attribute', EN + ': _set_string_field')])
prop('C10', 'A failed or interrupted save leaves the old file intact',
     'While a database is saved to a path, at every moment and after every failure the target holds either the complete old or the complete new file, and no other existing file is changed (except one that has the name of the target followed by .tmp). After a failed save the error is raised, no temporary file is left behind, and the database in memory can be saved again.',
     [F, X, I, H], 'a fault or crash at every file operation of a save, target names of any form, existing files nearby, data that cannot be serialised',
     'No test injects a fault or a crash.', [PK], [('temporary file then move', PK + ': save')])
prop('C11', 'Setting a field changes that field and nothing else',
     'After a field of an entry, group or database is set to a value, reading it gives that value, and every other field, entry, group, history item, attachment and setting is as before, including protection marks. A new entry or group has exactly what it was given.',
     [I, H], 'every text or other value of the type, every field, any number of earlier assignments',
     'The tests set each field to one value and look at that field.', [EN, GR, BA, PK], [('_set_string_field, _set_subelement_text', EN + ', ' + BA), ('database properties', PK)])
prop('C12', 'Custom properties behave as a map',
     'Custom properties of an entry behave as a map from every non-empty non-reserved key to a value with a protection mark: setting, overwriting, deleting and listing affect exactly the given key, unknown keys give None or an error, and the reserved names are refused.',
     [I, H], 'every key and value, including quotes and markup, any sequence of operations within the bound', 'The tests use two or three fixed keys.', [EN],
     [('set/get/delete_custom_property, custom_properties', EN)])
prop('C13', 'Searches return exactly the matching items',
     'Searching entries, groups and attachments by given values returns exactly the items whose fields equal them (or match them as a regular expression), in document order, within the given group and depth, with history only on request; first=True gives the first of them or None.',
     [I, H], 'every search value and every field content, including quotes and markup, every combination of search options within the bound',
     'The tests search a fixed database for a few fixed values.', [PK, XP], [('_find, xpath', PK), ('query tables', XP)])
prop('C14', 'Path lookup finds exactly the item at the path',
     'Looking up a path returns the item reached by following the named groups from the root, or None if there is none, and the path reported by an entry or group leads back to it when names on the way are unique.',
     [I, H], 'every name, including quotes and slashes, any nesting and duplicates within the bound', 'The tests use fixed names.', [PK, EN, GR, XP],
     [('_find with path', PK), ('path', EN + ', ' + GR)])
prop('C15', 'Structural edits move or remove exactly what was asked',
     'Adding, moving and deleting entries and groups keeps the database a tree in which each item is in exactly one place: the item (with everything below it) ends up at the end of its destination or is gone, and every other item keeps its content, place and order. Emptying a group removes everything in it and nothing else.',
     [I, H], 'every sequence of operations and choice of operands within the bound', 'The tests do one operation each on a fixed database.', [PK, GR, BA],
     [('add/move/delete/empty', PK), ('append, delete', GR + ', ' + BA)])
prop('C16', 'The recycle bin keeps trashed items and is made at most once',
     'Trashing an entry or group moves it with its content into the recycle bin group that the database names, which is created once if missing and never twice; the root group, the bin itself and groups that contain it are refused without any change, and what is already in the bin stays in it.',
     [H, I], 'every sequence of trash and other operations within the bound, with and without an existing bin', 'The tests trash one item at a time.', [PK],
     [('trash_entry, trash_group, _can_be_moved_to_recyclebin, _create_or_get_recyclebin_group', PK)])
prop('C17', 'Attachments keep pointing at their data',
     'Every attachment, also in history, shows the data it was attached with and its file name through any sequence of adding and deleting binaries and attachments; deleting a binary removes exactly it and the attachments to it, and an unknown binary is an error without change. In KDBX3 files a binary is known by its ID, wherever its element stands.',
     [I, H], 'every content and file name, every sequence of operations within the bound, KDBX3 and KDBX4', 'The tests add and delete one or two attachments.', [PK, AT, EN],
     [('add_binary, delete_binary, binaries', PK), ('Attachment', AT)])
prop('C18', 'History records exact earlier states and never changes by itself',
     'save_history appends a full copy of the entry without its history and changes nothing else; later edits of the entry leave the recorded states as they were, searches and listings exclude them unless asked, a recorded state shows its own attachments, and deleting history removes exactly the given state or all.',
     [I, H], 'every content, every sequence of edits and snapshots within the bound', 'The tests check counts and titles.', [EN, PK],
     [('save_history, delete_history, history', EN)])
prop('C19', 'Times are stored and read as the same instant',
     'Every time given with a zone is read back as the same instant to the second in UTC, in both format versions and in plaintext and binary form; a time that the file does not have reads as None; expiry is reported exactly when the entry expires and the time has passed.',
     [I, C], 'every date from year 1 to 9999, every UTC offset, both formats, every moment of the clock', 'The tests use a few fixed times.', [PK, BA],
     [('_encode_time, _decode_time', PK), ('times properties, expired, touch', BA)])
prop('C20', 'Credential changes are dated and their age is judged exactly',
     'Setting a new password or key file sets the date of the last credential change to now and changes no other setting, and whether a change is recommended or required is exactly whether more days than configured (unless -1) have passed since then.',
     [I, H], 'every date, every number of days, every moment of the clock', 'The tests use one date.', [PK], [('credchange_*', PK)])
prop('C21', 'Field references resolve to the fields they name',
     'A text with references resolves to the text with each reference replaced by the named field of the first entry that matches it, repeatedly until none is left, and to None if one matches nothing; a text without references is unchanged, and the reference an entry gives for one of its fields resolves to that field.',
     [I, H], 'every field content, every field as target and as key, several references, nesting within the bound', 'The tests resolve a few fixed references.', [PK, EN],
     [('deref', PK), ('ref, deref', EN)])
prop('C22', 'Header accessors report what the file says',
     'Version, cipher, key derivation and salt are reported as they are in the file for every supported minor version, parameter order and value, also without decrypting, and unsupported or foreign files raise an error.',
     [I, C], 'every version number, cipher id, key derivation id and header item order', 'The tests read fixed files.', [PK, KX, K3, K4],
     [('version, encryption_algorithm, kdf_algorithm, database_salt', PK), ('DynamicHeader', K3 + ', ' + K4)])
prop('C23', 'Reindexing moves an entry to the given position only',
     'After reindex(i) the entry is at index i among the entries of its group (at the end if i is larger) and the relative order of all other entries, groups and other content is unchanged; index reports that position.',
     [I, H], 'every index, every number of entries and interleaved groups within the bound', 'The tests reindex in a group of a few entries.', [EN, GR],
     [('index, reindex', EN), ('_first_entry', GR)])
prop('C24', 'Equality and hashing identify items by UUID',
     'Two entries or two groups are equal exactly if their UUIDs are equal, history items exactly if UUID and modification time are; equal items have equal hashes, and comparison with anything that is neither entry nor group is false.',
     [I], 'every pair of UUIDs and times', 'The tests compare a few items.', [BA, EN], [('__eq__, __hash__', BA), ('HistoryEntry', EN)])
prop('C25', 'A refused value leaves everything as it was',
     'When setting a field, property, tag, time or reference to a value fails with an error, or adding an entry or group fails, the database is exactly as before.',
     [I, H], 'every invalid value: text that XML cannot carry, wrong types, None, reserved keys, unknown ids', 'The tests check that an error is raised.', [EN, GR, BA, PK],
     [('_set_string_field, _set_subelement_text', EN + ', ' + BA)])
prop('C26', 'A new database has the given credentials, is empty and is independent',
     'create_database makes an empty database at the given place that opens with exactly the given password, key file or transformed key, and databases created from the template do not affect each other or the template.',
     [I, H], 'every password, key file and transformed key', 'The tests create one database with one password.', [PK], [('create_database', PK)])

prop('C27', 'Damage and wrong credentials are told apart',
     'Opening with wrong credentials raises CredentialsError and never a complaint about damage; opening a damaged file with the right credentials raises an error about the file (HeaderChecksumError, PayloadChecksumError or a format error) and, where the file still allows the two to be told apart, never CredentialsError; a failed attempt leaves the file untouched and a later attempt with the right credentials works.',
     [I, C], 'every password, every damaged place of the file', 'The tests try one wrong password and one damaged file.', [PK, K4, K3, CO],
     [('read', PK), ('CredentialsError, HeaderChecksumError, PayloadChecksumError', CO), ('body', K3 + ', ' + K4)])
prop('C28', 'One database has one state, whoever looks at it',
     'All handles to the same entry, group or attachment, however obtained and whenever, show the same current state; lists and maps that are handed out are the caller\'s, and changing them changes nothing in the database; databases opened separately, even from the same file or stream, do not affect each other.',
     [I, H], 'every value, every way to reach an item, every order of looking and changing within the bound', 'The tests look at an item through the handle that changed it.', [PK, EN, GR, BA],
     [('entries, groups, attachments, binaries', PK), ('attachments, history, custom_properties, tags', EN)])
prop('C29', 'Saving and reloading use the right file and credentials',
     'save() writes the opened file and nothing else; save(other) writes only that file or stream and the database stays bound to its own; reload() brings back exactly what was last saved under the credentials in use, discarding unsaved changes; opening something else with read() switches to it.',
     [I, H], 'every content, every order of save, save elsewhere, change and reload within the bound', 'The tests save and reload once.', [PK], [('save, reload, read, filename', PK)])
prop('C30', 'XML dumps show exactly the current content',
     'xml(), dump_xml(file) and the dump_xml() of an entry, group or history item give the current content, nothing more and nothing less, as well-formed XML (protected values in clear), also after saving and reopening; the file has exactly that, whatever it had before, and nothing else changes. A database that was not decrypted gives an error.',
     [I, H], 'every text and attachment, every history of operations within the bound, pretty-printed or not', 'The tests dump one fixed database and do not look at the result.', [PK, BA],
     [('xml, dump_xml', PK), ('dump_xml', BA)])
prop('C31', 'Every item can be printed and located, wherever it is',
     'str and repr of every entry, group, history item and attachment show its path (with user name, or file name and id) and never fail, also for items without title, user name or name, items deleted from the database or below a deleted group, and items not in it yet; path, group and is_root_group of such items give the rest of the path or nothing; looking changes nothing.',
     [I, H], 'every name, title and user name, present, empty or missing; every place of an item in or out of the database', 'The tests print a few items that are in the database.', [EN, GR, BA, AT],
     [('__str__, __repr__', EN + ', ' + GR + ', ' + BA + ', ' + AT), ('path, is_root_group, group', EN + ', ' + GR)])

LEVEL = 'model_checking'
TECH = ('symbolic execution of the real Python source (re-instrumented from /repo on every run) with z3 deciding every branch and assertion; '
        'counterexamples are replayed on the unmodified code')


def main():
    have = [i for i in sorted(P) if os.path.exists(os.path.join(ROOT, 'props', i.lower() + '.py'))]
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for i in have:
            f.write(json.dumps(P[i]) + '\n')
    import re
    checks = []
    for i in have:
        src = open(os.path.join(ROOT, 'props', i.lower() + '.py')).read()
        ns = {}
        m = re.search(r'^BOUNDS = (\(.*?\)|\'.*?\')$', src, re.S | re.M)
        b = eval(m.group(1)) if m else ''
        checks.append({'property': i, 'quick_cmd': './check %s' % i, 'thorough_cmd': './check %s --thorough' % i, 'technique': TECH, 'level': LEVEL,
                       'level_note': 'Bounds: ' + b})
    man = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': NA,
           'notes': 'See DESIGN.md. ./replay FILE re-runs a reported violation on the unmodified code.'}
    json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    for i in have:
        assert len(P[i]['title']) <= 80, i
    print(have)


NA = []
if __name__ == '__main__':
    main()
