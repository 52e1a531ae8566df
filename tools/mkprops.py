"""Writes /verif/properties.jsonl (run after editing the table below)."""
import json
import os

M = 'golem_messages/message/'
D = 'golem_messages/datastructures/'
G = 'golem_messages/'
BASE, TASKS, CONC, P2P, RES = (M + x for x in (
    'base.py', 'tasks.py', 'concents.py', 'p2p.py', 'resources.py'))
ALLM = [BASE, TASKS, CONC, P2P, RES]
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, title
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'mechanism': [{'name': n, 'where': w} for n, w in mech],
            'observe_at': list(observe),
            'hook_needed': None}})


prop('C01', 'Wire type numbers are unique, stable and two-way consistent',
     'Every message kind that can be sent has exactly one type number, no two '
     'kinds share one, each fits the 16-bit type field, and the number of '
     'every published kind never changes. Looking a kind up by its number '
     'and asking a kind for its number always agree.',
     ['programs', 'inputs'],
     'all registered kinds of the program text; all type numbers',
     'Tests pin a few kinds; a renumbered or doubly registered kind is only '
     'seen by a peer running another version.',
     ALLM + [G + 'register.py'],
     [('library.register decorators', 'message/*.py'),
      ('MessageRegister', 'register.py')],
     ['bytes 0-1 of a dumped message', 'class returned by load'])
prop('C02', 'The type registry refuses to give one number to two kinds',
     'Registering a kind under a number that is already taken fails with an '
     'error and leaves the earlier registration intact in both directions. '
     'A successful registration makes the kind reachable by its number and '
     'the number reachable by the kind.',
     ['histories', 'inputs'], 'all registration histories, all numbers',
     'The single test registers one duplicate of one number.',
     [G + 'register.py'], [('MessageRegister.register', 'register.py')],
     ['RuntimeError at import', 'registry lookups'])
prop('C03', 'Enumerated field values are unique, stable and closed',
     'Each enumerated message field (reasons, operations, origins, file '
     'categories, market types, recipient types, owner roles) has a fixed '
     'set of names and distinct wire values that never change. Loading a '
     'value outside the set is refused with a field error naming the field, '
     'a missing value stays missing, and every defined value is accepted.',
     ['inputs', 'programs'], 'all enumerated fields, all received values',
     'Tests use one or two members per enumeration and never an alias, a '
     'renamed value or the whole set.',
     [BASE, TASKS, CONC, D + 'tasks.py'],
     [('ENUM_SLOTS / REASON enums', 'message/*.py'),
      ('Message.deserialize_slot', BASE)],
     ['payload bytes', 'loaded field value'])
prop('C04', 'Writer and reader agree on the message frame',
     'A dumped message is a 2-byte big-endian type, an 8-byte big-endian '
     'timestamp in seconds, a 1-byte encryption flag, a 65-byte signature '
     'and the payload, with the greeting message followed by a 32-byte '
     'length-prefixed version field. Loading cuts the bytes at exactly those '
     'positions and takes type, timestamp, flag, signature, payload and '
     'version from them, for every message kind.',
     ['inputs', 'programs'], 'all kinds, all header values and payloads',
     'Tests compare a few fixed frames; a shift that writer and reader make '
     'together, or one kind overriding the layout, passes them.',
     [BASE], [('Message.serialize / serialize_header', BASE),
              ('Message.deserialize / unpack_header', BASE),
              ('Hello.serialize / deserialize_with_header', BASE)],
     ['bytes of dump', 'fields of load'])
prop('C05', 'The payload carries every declared field of the kind once',
     'The payload of a message is the encoding of one [name, value] pair for '
     'each declared field of its kind, each exactly once in declaration '
     'order, and of nothing else; the header and the signature are not part '
     'of it. The declared fields of each published kind never lose a member.',
     ['inputs', 'programs'], 'all kinds, all field values',
     'Tests check the slot list of some kinds with ordinary values.',
     ALLM, [('Message.slots / valid_slot', BASE), ('__slots__', 'message/*')],
     ['decoded payload'])
prop('C06', 'Every field survives dump and load',
     'For every kind and each of its fields, a value the sender may put '
     'there comes back equal after dumping and loading the message, '
     'including enumerated values, nested messages, lists of messages '
     'node descriptions, task headers, statistics, peers '
     'and file descriptions. No field is lost, renamed, defaulted or '
     'swapped with another on the way.',
     ['inputs', 'programs'], 'all kinds, all fields, all admissible values',
     'Round-trip tests use one factory-made value per kind; falsy, empty and '
     'absent values and several kinds are never tried.',
     ALLM + [D + 'p2p.py', D + 'stats.py', D + 'tasks.py'],
     [('serialize_slot / deserialize_slot pairs', 'message/*.py'),
      ('Message.load_slots / slots', BASE)],
     ['loaded field values'])
prop('C07', 'The signature covers type, time and every field',
     'The digest a message signature is made and checked over depends on the '
     'message type, its timestamp and its complete payload, and for the '
     'greeting also on the announced version. It does not depend on the '
     'encryption flag or on the signature itself, and it is the same for the '
     'same message at the sender and at the receiver, nested or not.',
     ['inputs', 'programs'], 'all kinds, all contents',
     'Tests flip a few fields of one kind; a field, kind or code path left '
     'out of the digest still signs and verifies.',
     [BASE], [('Message.get_short_hash', BASE),
              ('Hello.get_short_hash', BASE)],
     ['signature bytes', 'verification result'])
prop('C08', 'Loading with a sender key verifies the sender signature',
     'Loading a message of a signed kind while naming the expected sender '
     'succeeds only if the signature in the received bytes verifies for that '
     'public key over the received content, for every kind. Otherwise a '
     'library error is raised and no message is returned.',
     ['inputs', 'programs'], 'all signed kinds, all byte strings, all keys',
     'Tests tamper with one or two kinds; a kind that overrides loading, or '
     'a branch that skips the check, is not reached.',
     [BASE, TASKS, G + 'shortcuts.py'],
     [('Message.deserialize_with_header', BASE), ('load', 'shortcuts.py')],
     ['return or exception of load'])
prop('C09', 'Signature verification accepts only the right key',
     'Verifying a signature succeeds only if the public key recovered from '
     'the signature over the hash of the given data is exactly the given '
     '64-byte key; in every other case (wrong key, malformed signature, '
     'malformed key) it raises a signature or key error and never returns a '
     'false or empty value. Signing hashes the data the same way.',
     ['inputs'], 'all keys, signatures and messages',
     'Tests try one wrong key and one damaged signature.',
     [G + 'cryptography.py'],
     [('ecdsa_verify / ecdsa_sign', 'cryptography.py'),
      ('ECCx.verify / sign', 'cryptography.py')],
     ['return value or exception'])
prop('C10', 'An existing signature is never overwritten or invalidated',
     'Dumping an already signed message with a signing key is refused with a '
     'dedicated error; dumping it without one keeps its signature bytes and '
     'leaves the signed content as it was. Nested messages keep their own '
     'signature and timestamp through dump and load, and the copy-and-sign '
     'helper signs a copy only when the original is unsigned and never '
     'modifies the original.',
     ['histories', 'inputs'], 'all kinds, all sequences of operations',
     'Tests cover one sequence for one kind.',
     [BASE, G + 'utils.py'],
     [('Message.serialize', BASE), ('copy_and_sign', 'utils.py'),
      ('serialize_message_single', BASE)],
     ['signature of the message before and after'])
prop('C11', 'Each kind keeps its signing and encryption policy',
     'Kinds documented as unencrypted are never encrypted and kinds '
     'documented as unsigned are never signed nor checked, all others are '
     'signed when a key is given and encrypted when an encryption function '
     'is given; what is not signed carries 65 zero bytes. The encryption '
     'flag in the header is set exactly when the payload is encrypted, the '
     'plain payload never appears in a message marked encrypted, and the '
     'receiver decrypts exactly when the flag is set.',
     ['inputs', 'programs'], 'all kinds, all key combinations',
     'Tests look at one encrypted and one plain kind.',
     ALLM + [G + 'shortcuts.py'],
     [('ENCRYPT / SIGN class attributes', 'message/*.py'),
      ('Message.serialize', BASE),
      ('Message.deserialize_with_header', BASE)],
     ['dumped bytes'])
prop('C12', 'Ciphertext is authenticated before it is decrypted',
     'Decryption returns plaintext only if the 32-byte tag at the end '
     'matches the keyed hash of everything between the sender key and the '
     'tag (initialisation vector and ciphertext) plus the shared data, and '
     'the tag is compared, in constant time, before anything is decrypted; '
     'otherwise a decryption error is raised, and no plaintext is returned '
     'for data too short to be a ciphertext. Encryption produces exactly '
     'the layout decryption reads: 65-byte key starting with 0x04, 16-byte '
     'vector, ciphertext, tag.',
     ['inputs'], 'all ciphertexts, keys and shared data',
     'Tests flip a few bytes of one ciphertext.',
     [G + 'cryptography.py'],
     [('ECIES.encrypt / decrypt', 'cryptography.py')],
     ['plaintext or DecryptionError'])
prop('C13', 'Every encryption uses a fresh vector and bounded session keys',
     'Each encryption draws a new random initialisation vector that is used '
     'for the cipher and sent in the message. The ephemeral key kept for a '
     'recipient is private to that recipient and is not used any more once '
     'the configured lifetime has passed, however often it was used '
     'meanwhile.',
     ['histories', 'schedules'], 'all sequences of encryptions and times',
     'Key expiry needs an hour of use of one recipient; vector reuse shows '
     'only statistically.',
     [G + 'cryptography.py'],
     [('ECIESKeyManager.get_ephem_key', 'cryptography.py'),
      ('ECIES.encrypt', 'cryptography.py')],
     ['ephemeral key and vector bytes of successive ciphertexts'])
prop('C14', 'Both sides derive the same two separate keys',
     'Sender and receiver derive the cipher key and the authentication key '
     'from the same shared secret by the same procedure: the standard '
     'counter-mode SHA-256 derivation of 32 bytes, whose first half is the '
     'cipher key and the SHA-256 of whose second half is the authentication '
     'key. The result depends on nothing but the shared secret.',
     ['inputs', 'histories'], 'all secrets, all cache states',
     'Tests compare one encryption with one decryption.',
     [G + 'cryptography.py'],
     [('ECIESKeyManager.get_derived_keys / _ckdf', 'cryptography.py')],
     ['ciphertext, tag'])
prop('C15', 'Messages outside the freshness window are refused',
     'With time checking on (the default) a message is accepted only if it '
     'is at most ten minutes old and at most five minutes ahead of the '
     'receiver clock, both in UTC and both limits included; older and newer '
     'ones raise the respective error. Timestamps that denote no time raise '
     'a timestamp error, and time checking is skipped only on request.',
     ['inputs', 'schedules'], 'all timestamps and clock values, all kinds',
     'Tests try a few offsets with a frozen clock.',
     [BASE, G + 'settings.py', G + 'shortcuts.py'],
     [('verify_time', BASE), ('Message.deserialize', BASE)],
     ['return or exception of load'])
prop('C16', 'Impossible headers are refused before anything is decoded',
     'Input too short to hold a header, a signature and a payload, headers '
     'that cannot be unpacked, timestamps not strictly between the years '
     '2010 and 3010 and unknown type numbers are refused with a library '
     'error. The refusal happens before the payload is decrypted or decoded.',
     ['inputs'], 'all byte strings',
     'Tests use a handful of broken headers.',
     [BASE, G + 'settings.py'],
     [('Message.deserialize / deserialize_header / unpack_header', BASE)],
     ['exception of load'])
prop('C17', 'Undecodable content only ever raises library errors',
     'Whatever payload a peer sends (undecryptable, not decodable, wrong '
     'structure, wrong field types), loading either returns a message or '
     'raises an error of the library hierarchy, never a bare built-in or '
     'third-party exception.',
     ['inputs'], 'all payloads of all kinds',
     'Tests use a few malformed values; the space of decodable payloads is '
     'unbounded.',
     ALLM + [G + 'serializer.py', D + '__init__.py'],
     [('try/except in Message.__init__, deserialize_*', BASE),
      ('wrap_error', 'serializer.py')],
     ['exception type of load'])
prop('C18', 'Ownership holds only if an expected party signed each message',
     'Validating ownership of a task message succeeds only if its signature '
     'verifies for the key of one of the parties allowed to issue that kind '
     '(the provider and requestor keys being those in the task assignment it '
     'refers to), and otherwise raises a signature error. Validating the '
     'chain does so for the message and for every task message nested in '
     'it, at any depth.',
     ['inputs', 'programs'], 'all kinds, chains, keys and signatures',
     'Tests sign a few chains; forged inner messages at each position of '
     'each kind are not enumerated.',
     [TASKS, CONC],
     [('TaskMessage.validate_ownership(_chain)', TASKS)],
     ['True or InvalidSignature'])
prop('C19', 'Each task message kind has a fixed set of allowed issuers',
     'For each task message kind the set of parties whose signature is '
     'accepted is fixed: provider, requestor, Concent, or a documented pair '
     'of them. Kinds without an allowed issuer never validate.',
     ['programs'], 'all task message kinds',
     'Tests exercise ownership of some kinds only.',
     [TASKS, CONC], [('EXPECTED_OWNERS', 'message/tasks.py, concents.py')],
     ['result of ownership validation per signer'])
prop('C20', 'Owner verification rejects chains with foreign roles',
     'Verifying owners with a given provider or requestor key raises an '
     'ownership mismatch whenever that key differs from the respective key '
     'in the task assignment of the chain, and otherwise succeeds only if '
     'the whole chain validates. Each given key is compared with its own '
     'role.',
     ['inputs'], 'all chains and keys',
     'Tests try one mismatch per role on one kind.',
     [TASKS], [('TaskMessage.verify_owners', TASKS)],
     ['True or OwnershipMismatch'])
prop('C21', 'A task assignment is owned only with a genuine task header',
     'Validating ownership of a task assignment, also deep inside a chain, '
     'succeeds only if the task header in the contained offer is signed by '
     'the requestor named in the assignment.',
     ['inputs'], 'all assignments',
     'Tests cover a valid and one invalid header.',
     [TASKS, D + 'tasks.py'],
     [('TaskToCompute.validate_ownership', TASKS)],
     ['True or InvalidSignature'])
prop('C22', 'Chain accessors report the ids of the contained assignment',
     'Asking any task message for its task id, subtask id, provider id, '
     'requestor id or task assignment gives the value found in the task '
     'assignment its chain refers to: the first of the documented '
     'sub-messages that is present and has the value, and nothing if none '
     'does.',
     ['inputs', 'programs'], 'all task message kinds, all chains',
     'Tests check accessors for some kinds with all parts present.',
     [TASKS, CONC],
     [('TaskMessage._get_task_value', TASKS),
      ('TASK_ID_PROVIDERS', 'message/tasks.py, concents.py')],
     ['accessor values'])
prop('C23', 'Semantic checks run whenever a task message is loaded',
     'Loading a task message of any kind from bytes runs that kind\'s '
     'semantic validation on the loaded message after its signature was '
     'checked, and a failed validation makes loading fail with a library '
     'error. No option of loading skips it. A verdict whose two reports '
     'contain different assignments is invalid.',
     ['programs', 'inputs'], 'all task message kinds, all bytes',
     'Tests check this for three kinds.',
     [TASKS, CONC],
     [('TaskMessage.deserialize_with_header', TASKS)],
     ['ValidationError of load'])
prop('C24', 'Accepted results carry a payment time in the allowed window',
     'A results-accepted message is valid only if its payment time is not '
     'later than its own timestamp and at most fifteen minutes earlier, both '
     'limits included; otherwise validation raises an error.',
     ['inputs'], 'all payment times and timestamps',
     'Tests try three offsets.',
     [TASKS, G + 'settings.py'],
     [('SubtaskResultsAccepted.is_valid', TASKS)],
     ['ValidationError'])
prop('C25', 'Result rejections are valid only with an allowed, proven reason',
     'A rejection without a reason, one claiming a Concent-reported resource '
     'failure without the Concent proof attached, or one whose attached '
     'proof concerns another task or subtask is invalid. When it must come '
     'from the requestor, only negative verification plus (with Concent) the '
     'Concent-reported failure or (without Concent) the plain resource '
     'failure are allowed, and the other rules still apply.',
     ['inputs'], 'all reasons, proofs and Concent settings',
     'Tests cover selected combinations.',
     [TASKS], [('SubtaskResultsRejected.is_valid(_for_requestor)', TASKS)],
     ['ValidationError'])
prop('C26', 'A loaded assignment proves its ethereum key and its ids',
     'Loading a task assignment from bytes succeeds only if its ethereum '
     'signature verifies for the stated requestor ethereum key over the '
     'contained offer, and if both its task id and its subtask id are '
     'identifiers generated from the stated requestor id. Otherwise a '
     'signature error or a field error naming the id is raised.',
     ['inputs'], 'all assignments',
     'Tests try one bad value of each.',
     [TASKS, G + 'idgenerator.py'],
     [('TaskToCompute.deserialize_with_header', TASKS),
      ('verify_ethsig / validate_taskid', TASKS)],
     ['exception of load'])
prop('C27', 'A promissory note commits to all of its terms',
     'The signed content of a promissory note is the contract address, the '
     'payer, the payee, the amount as 32 big-endian bytes and the subtask id '
     'padded to 32 bytes, in that order, so that changing any of them '
     'changes it. A note signature is valid exactly if the address recovered '
     'from it over that content is the payer; a missing signature is '
     'invalid and a malformed one raises a type error.',
     ['inputs'], 'all notes and signatures',
     'Tests compare one fixed note.',
     [D + 'promissory.py', G + 'utils.py'],
     [('PromissoryNote.hexmsg / sign / sig_valid', D + 'promissory.py')],
     ['hash and signature of the note'])
prop('C28', 'Messages sign and verify the same promissory notes',
     'The note a message verifies is the note it signs: for an assignment, '
     'payer requestor, payee provider (or the deposit contract for the '
     'Concent note), the assignment price and subtask id; for a verification '
     'request, payer provider, payee the deposit contract. Signing all notes '
     'fills both signatures, and verifying all succeeds only if both are '
     'valid.',
     ['inputs', 'programs'], 'all notes of all kinds',
     'Tests sign and verify with the same code, so a symmetric change of '
     'party, amount or contract passes.',
     [TASKS, CONC, D + 'promissory.py'],
     [('TaskToCompute._get_(concent_)promissory_note', TASKS),
      ('SubtaskResultsVerify._get_concent_promissory_note', CONC),
      ('PromissorySlotMixin', D + 'promissory.py')],
     ['note signature fields', 'True/False'])
prop('C29', 'A task header signature covers every header field',
     'The digest a task header is signed and verified over depends on every '
     'field of the header except the signature, and is the same before and '
     'after the header is transferred. Verifying an unsigned header raises a '
     'signature error.',
     ['inputs'], 'all task headers',
     'Tests change a few fields.',
     [D + 'tasks.py', D + '__init__.py'],
     [('TaskHeader.get_hash / sign / verify', D + 'tasks.py')],
     ['signature bytes', 'InvalidSignature'])
prop('C30', 'Validators accept exactly their documented sets',
     'The shared validators accept exactly: strings up to the length limit; '
     'integers that are not booleans; integers from 1 up; ports 1 to 65535; '
     'IP addresses; booleans; semantic versions; dictionaries. Everything '
     'else is refused with a field error carrying the field name and the '
     'value.',
     ['inputs'], 'all values',
     'Tests use a few values per validator and miss limits.',
     [G + 'validators.py'], [('validate_*', 'validators.py')],
     ['FieldError or nothing'])
prop('C31', 'Containers check every field and refuse unknown or missing ones',
     'Building a container (task header, node, statistics) applies all '
     'validators of a field to every value given for it, except that an '
     'optional field may be null; it refuses missing required fields and '
     'unknown fields with a field error naming them, and sets every other '
     'missing field to its default. Any other failure surfaces as a library '
     'error.',
     ['inputs'], 'all field assignments',
     'Tests omit or break a few fields of two containers.',
     [D + '__init__.py'],
     [('Container.load_slots / deserialize_slot', D + '__init__.py')],
     ['FieldError / attribute values'])
prop('C32', 'Each container field accepts exactly its documented values',
     'For every field of the task header, node and statistics containers the '
     'set of accepted values is the documented one (type, sign, length, '
     'nested structure, required or not) and the accepted value is stored '
     'converted as documented. A value outside is refused with a field error.',
     ['inputs', 'programs'], 'all fields, all values',
     'Tests try a few bad values for some fields.',
     [D + 'tasks.py', D + 'p2p.py', D + 'stats.py'],
     [('__slots__ validator tables', D + '*.py')],
     ['FieldError / attribute values'])
prop('C33', 'Structured dictionaries keep a closed set of valid entries',
     'Dictionaries with a fixed set of keys (compute task definition, file '
     'info, peer, statistics entries) refuse unknown keys on construction '
     'and on item assignment, fill in missing keys with their defaults and '
     'cannot get new attributes. Those with validated entries run the '
     'validator of a key for every value constructed with or assigned to it, '
     'and store nothing that fails.',
     ['inputs', 'histories'], 'all keys, values and assignment sequences',
     'Tests use single assignments.',
     [D + '__init__.py', TASKS, CONC, D + 'p2p.py', D + 'stats.py'],
     [('SetItemDict / FrozenDict / ValidatingDict', D + '__init__.py')],
     ['KeyError / FieldError / contents'])
prop('C34', 'Instances never share mutable state',
     'Values filled in by default (lists, dictionaries, masks, peers) are '
     'fresh for each instance, so that changing one message, container or '
     'structured dictionary never changes another one or the class '
     'defaults.',
     ['histories'], 'all sequences of constructions and mutations',
     'Aliasing shows only when one instance is mutated and another read.',
     [D + '__init__.py', D + 'p2p.py', D + 'stats.py', D + 'masking.py']
     + ALLM,
     [('FrozenDict._set_defaults', D + '__init__.py'),
      ('Container.DEFAULTS', D + 'p2p.py')],
     ['contents of a second instance'])
prop('C35', 'Statistics and node descriptions convert symmetrically',
     'Converting a statistics, node or task header container to plain data '
     'and back yields equal content for every field, with nested statistics '
     'rebuilt as their own containers and absent parts staying absent. The '
     'plain form contains every declared field and no library object.',
     ['inputs', 'programs'], 'all containers and field values',
     'Tests convert one factory-made object each.',
     [D + '__init__.py', D + 'stats.py', D + 'p2p.py', D + 'tasks.py'],
     [('Container.to_dict, serialize_* / deserialize_*', D + '*.py')],
     ['plain data', 'rebuilt container'])
prop('C36', 'Generated ids prove their seed and the check is exact',
     'An id generated from a seed (or from another id) is a textual UUID '
     'whose node is the big-endian value of the first six seed bytes (or '
     'the node of the other id). The seed check is true for such ids, and '
     'false for every id with another node and for text that is no UUID; '
     'the hexadecimal variants agree with the binary ones.',
     ['inputs'], 'all ids and seeds',
     'Tests try random ids of one seed.',
     [G + 'idgenerator.py'],
     [('generate_id / check_id_seed / seed_to_node', 'idgenerator.py')],
     ['id text', 'True/False'])
prop('C37', 'Hexadecimal, UUID and address helpers are exact inverses',
     'Encoding bytes to hexadecimal text and decoding it gives the same '
     'bytes, for any bytes including none, and other types are refused with '
     'a type error. A UUID encoded in 32 bytes is its 16 bytes followed by '
     'zeros and decodes to the same UUID, and the address of a public key is '
     'the checksummed last 20 bytes of its keccak hash.',
     ['inputs'], 'all byte strings, UUIDs and keys',
     'Tests use fixed examples.',
     [G + 'utils.py'],
     [('encode_hex / decode_hex / uuid_to_bytes32 / bytes32_to_uuid / '
       'pubkey_to_address', 'utils.py')],
     ['returned values'])
prop('C38', 'A greeting from an incompatible version is refused first',
     'A greeting is accepted only if its announced version has the same '
     'major and minor number as ours (any patch level), anything else, '
     'unreadable versions included, raises a version mismatch before the '
     'payload is decoded. The announced version is sent in the greeting, '
     'restored on load, and is part of what is signed.',
     ['inputs'], 'all version strings, all greetings',
     'Tests try a few version pairs.',
     [BASE], [('Hello.deserialize_with_header / serialize', BASE),
              ('verify_version', BASE)],
     ['VersionMismatchError of load'])
prop('C39', 'Message equality compares content and signature, not transport',
     'Two messages are equal exactly if they are of the same kind and agree '
     'in type number, timestamp, signature and all fields (and, for the '
     'greeting, the version). The encryption flag never matters.',
     ['inputs'], 'all pairs of messages',
     'Tests compare a few pairs.',
     [BASE], [('Message.__eq__', BASE), ('Hello.__eq__', BASE)],
     ['True/False'])
prop('C40', 'Private keys never reach logs, texts or exceptions',
     'No private key passed to or derived inside the library, and no secret '
     'or symmetric key agreed with one, is written to a log, printed, put '
     'into an exception or made part of the textual form of an object, and '
     'none becomes part of a dumped message.',
     ['inputs', 'programs'], 'all functions, all paths',
     'Tests do not look at log output or exception texts for secrets.',
     [G + 'cryptography.py', G + 'shortcuts.py', BASE, TASKS,
      D + 'promissory.py', D + 'tasks.py', G + 'utils.py'],
     [('all logging, raise and format sites', 'golem_messages/')],
     ['log records, exception arguments, repr'])
prop('C41', 'Field errors name the offending field and value',
     'Every field error the library raises carries the name of the field it '
     'is about and the rejected value, and its text shows both.',
     ['inputs', 'programs'], 'all raise sites, all values',
     'Tests look at a few field errors.',
     [G + 'exceptions.py', G + 'validators.py', BASE, TASKS, CONC, P2P],
     [('FieldError', 'exceptions.py'), ('raise sites', 'golem_messages/')],
     ['exception attributes and text'])
prop('C42', 'All library errors form one stable hierarchy',
     'Every error class of the library derives from the common message '
     'error (itself a runtime error), and the documented families hold: '
     'header errors include timestamp errors which include too-old and '
     'from-the-future errors, crypto errors include signature, key and '
     'decryption errors, and a refused re-signing is a serialization error.',
     ['programs'], 'all exception classes',
     'Tests catch the concrete class, not its bases.',
     [G + 'exceptions.py'], [('exception classes', 'exceptions.py')],
     ['except clauses of callers'])
prop('C43', 'Messages accept no undeclared attributes',
     'Creating a message with an unknown field name, or assigning an '
     'undeclared attribute to one, raises an attribute error for every '
     'kind; every declared field can be given when creating the message and '
     'reads back as given.',
     ['inputs', 'programs'], 'all kinds, all names',
     'Tests try one unknown name on one kind; one base class without a '
     'closed layout silently opens all kinds below it.',
     ALLM, [('__slots__ of every class in the hierarchy', 'message/*.py'),
            ('Message.__init__', BASE)],
     ['AttributeError', 'attribute values'])
prop('C44', 'Masks keep 256 bits and change by exactly the requested bits',
     'A mask that is generated or made of 32 bytes stays 32 bytes; '
     'increasing sets exactly the requested number of previously clear bits (or all that are left) and clears '
     'none, decreasing clears exactly the requested number of set bits (or '
     'all) and sets none, generating sets exactly the requested number, and '
     'negative requests raise a value error without changing the mask. '
     'Its bit set, integer, binary text and byte forms all describe the '
     'same bits.',
     ['inputs', 'histories'], 'all masks and counts',
     'Tests sample a few counts of random masks.',
     [D + 'masking.py'], [('Mask.*', D + 'masking.py')],
     ['bytes and bits of the mask'])
prop('C45', 'Protocol times and deposits follow the published formulas',
     'The protocol time constants have their published values and mutual '
     'ratios, the download time is one minute plus the size divided by the '
     'rate rounded up to whole seconds, and the verification time is four '
     'messaging times plus three download times plus half the subtask '
     'timeout. Deposits are twice and four times the task price for the '
     'requestor, once and four times the subtask price for the provider.',
     ['inputs'], 'all sizes below 2**53, rates, prices and times',
     'Tests compute a few values, partly with the same constants.',
     [G + 'constants.py', G + 'helpers.py', G + 'settings.py'],
     [('constants', 'constants.py'), ('helpers', 'helpers.py')],
     ['returned durations and amounts'])
prop('C46', 'Nested messages are decoded into the declared kind only',
     'A nested message field of every kind holds, after loading, a message '
     'of the declared kind with the received header (which must name that '
     'kind), signature and fields, '
     'a list of such messages where a list is declared, or nothing only '
     'where that is allowed; any other received structure is refused with a '
     'field error. When dumping, objects of other kinds and disallowed '
     'absence are refused the same way.',
     ['inputs', 'programs'], 'all nested fields, all received values',
     'Tests check some kinds with well-formed and a few broken values.',
     ALLM, [('MSG_SLOTS', 'message/*.py'),
            ('(de)serialize_message(_single)', BASE)],
     ['type of the loaded field', 'FieldError'])
prop('C47', 'Encoding and decoding problems surface as one library error',
     'Any failure of the payload encoder or decoder is reported as a '
     'serialization error with the original error as its cause, for dumping '
     'and loading alike; results are passed through unchanged. Payloads are '
     'encoded and decoded only through that wrapper.',
     ['inputs', 'programs'], 'all payloads, all call sites',
     'Tests break the decoder with one input.',
     [G + 'serializer.py'], [('wrap_error', 'serializer.py')],
     ['SerializationError'])
prop('C48', 'Published import names stay available',
     'All message kinds importable from the deprecated common module, and '
     'the top-level dump, load and key class, remain importable and are the '
     'same objects as in their own modules.',
     ['programs'], 'all published names',
     'Tests import only some names.',
     [M + '__init__.py', G + '__init__.py'],
     [('re-exports', M + '__init__.py')], ['import'])
prop('C49', 'Task messages normalise and check their own fields on load',
     'Offers loaded from a peer have a positive whole number of subtasks '
     '(one if none is given) and a non-negative whole cpu usage if given; '
     'assignments have whole-number price and size if given; both have a '
     'boolean Concent flag; failures without a reason mean computation '
     'error; absent lists of peers, tasks, resource peers and gossip are '
     'empty lists. Violations raise a field error naming the field.',
     ['inputs'], 'all loaded values',
     'Tests use a few bad values.',
     [TASKS, P2P],
     [('deserialize_slot / __init__ of the kinds', TASKS)],
     ['field values', 'FieldError'])
prop('C50', 'File transfer tokens describe operations and files faithfully',
     'A token is an upload or a download token exactly according to its '
     'operation, each of its files is loaded with its path, checksum, size '
     'and category (results by default) and any other category is refused '
     'with a field error. Looking up a category returns the first file of '
     'that category or nothing.',
     ['inputs'], 'all tokens and file lists',
     'Tests use one or two files.',
     [CONC], [('FileTransferToken', CONC)],
     ['is_upload, is_download, file info'])
prop('C51', 'Node descriptions fall back and compare as documented',
     'Completing public information copies each private value only into the '
     'corresponding missing public value and changes nothing else. A node '
     'is a super node exactly if both its addresses are known and equal, '
     'and two nodes are equal exactly if all their fields are equal.',
     ['inputs'], 'all node descriptions',
     'Tests use a few combinations.',
     [D + 'p2p.py'], [('Node', D + 'p2p.py')], ['attribute values'])
prop('C52', 'Key objects and key derivation are consistent',
     'The public key derived from a private key is the 64-byte uncompressed '
     'point without prefix; a key object built from a private key carries '
     'exactly that public key, is refused with a crypto error if its keys '
     'do not check out, and signs with its private and verifies with its '
     'public key. A key derived from a seed is the keccak-256 of the seed '
     'and the general hash is SHA3-256 of the data or of its UTF-8 form.',
     ['inputs'], 'all private keys and seeds',
     'Tests use a few keys.',
     [G + 'cryptography.py'],
     [('privtopub, ECCx, mk_privkey, sha3', 'cryptography.py')],
     ['keys, signatures'])
prop('C53', 'New messages get a correct header and the given content',
     'A message created without a header gets its own registered type '
     'number, the current UTC time in whole seconds and a cleared '
     'encryption flag; a given header and signature are kept as they are. '
     'Received field values take precedence over values given as arguments.',
     ['inputs', 'programs'], 'all kinds and arguments',
     'Tests create a few kinds.',
     [BASE], [('Message.__init__', BASE)],
     ['header and fields of the new message'])
prop('C58', 'A mask admits exactly the addresses with clear masked hash bits',
     'An address matches a mask exactly if its SHA-256 hash, read as a '
     'number in the same order as the mask, has none of the bits set that '
     'the mask has set; an empty mask admits every address, and the mask '
     'for a task without potential workers is empty.',
     ['inputs'], 'all masks and addresses',
     'Tests compare a few masks with a few random keys.',
     [D + 'masking.py'], [('Mask.matches', D + 'masking.py')],
     ['the result of matches'])
prop('C59', 'Looking at a message does not change it',
     'Listing the fields of a message, hashing, printing, comparing or '
     'verifying it, checking its ownership, owners, notes or validity, '
     'and reading its accessors leave its header, signature and fields as '
     'they were, and so those of the messages and data structures inside '
     'it, also when the operation fails. Dumping a message changes at most '
     'the encryption flag of its header and a missing signature.',
     ['inputs', 'histories'], 'all kinds, contents and keys',
     'Tests look at the result of an operation, rarely at the message after '
     'it, and hardly ever after a failure.',
     [BASE, TASKS, D + 'tasks.py', D + 'p2p.py'],
     [('slots, get_short_hash, verify_signature, serialize', BASE),
      ('validate_ownership, verify_owners', TASKS),
      ('to_dict, get_hash, verify', D + 'tasks.py')],
     ['the message before and after'])
prop('C54', 'Forging a signature or tag without the key is infeasible',
     'Nobody without the private key can produce a message that loads under '
     'that sender, and nobody without the recipient key can read or alter '
     'an encrypted payload undetected.',
     ['inputs'], 'all adversaries',
     'A cryptographic assumption, not testable.',
     [G + 'cryptography.py'], [('coincurve, pyelliptic', 'third party')],
     [])
prop('C55', 'Equal content always encodes to identical bytes',
     'Two messages or task headers with equal fields encode to the same '
     'bytes on every platform and library version, so that signatures made '
     'on one node verify on another.',
     ['inputs', 'configurations'], 'all contents, encoder versions',
     'Needs other versions of the encoder.',
     [G + 'serializer.py'], [('cbor.dumps', 'third party')], [])
prop('C56', 'A task mask admits the desired share of workers',
     'The mask generated for a task admits on average about the desired '
     'number out of the potential workers, for all ratios.',
     ['inputs'], 'all ratios, the distribution of addresses',
     'A statistical statement.',
     [D + 'masking.py'], [('Mask.get_mask_for_task', D + 'masking.py')], [])
prop('C57', 'Loading needs time and memory proportional to the input',
     'Loading any received byte string takes time and memory bounded by a '
     'modest multiple of its length.',
     ['inputs'], 'all byte strings',
     'Needs worst-case inputs of the third-party decoder.',
     [BASE, G + 'serializer.py'], [('cbor.loads', 'third party')], [])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
