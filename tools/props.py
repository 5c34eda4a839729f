"""Properties, written to properties.jsonl and MANIFEST.json by gen.py."""

P = []


def prop(id, title, statement, over, text, why, files, mechanism, note,
         observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mechanism=mechanism,
                  note=note, observe=list(observe)))


prop('C01', 'Packet framing is lossless',
     'Splitting octets into OpenPGP packets recovers exactly the type and '
     'body of every packet for every legal header and length encoding, from '
     'memory and from a stream alike, and writing packets gives octets from '
     'which an independent reader recovers the same types and bodies. A '
     'stream that ends within a packet is reported as an error, never as a '
     'shorter packet.',
     ['inputs'],
     'All packet types, both header formats, every length encoding '
     '(including partial and indeterminate lengths), body lengths around '
     'every encoding boundary, every truncation.',
     'Tests parse a handful of stored files whose packets use few of the '
     'length encodings; a boundary off by one shows at particular lengths '
     'only.',
     ['pgp/packets/packets.py', 'pgp/packets/parsers.py', 'pgp/utils.py'],
     [('header and length decoding', 'pgp/packets/packets.py '
       'packet_from_packet_data, packet_from_packet_stream'),
      ('header and length encoding', 'pgp/packets/packets.py '
       'Packet.__bytes__; pgp/utils.py *_packet_length_*')],
     'Exhaustive within the bounded domain of framings and lengths; body '
     'octets are patterns, not all values.')

prop('C02', 'Scalar encodings are exact inverses and in range',
     'Multi-precision integers, fixed-width integers, hexadecimal strings, '
     'packet lengths and octet counts are encoded as RFC 4880 defines them '
     'and decode to the same value, consuming exactly their own octets. A '
     'number that does not fit into its octets is refused, not cut off.',
     ['inputs'],
     'All values within 3 of every power of two up to the bound, whole '
     'domains where they are small, at every offset of a buffer.',
     'Tests convert three integers; the errors of such codecs sit at bit and '
     'octet boundaries.',
     ['pgp/utils.py', 'pgp/s2k.py'],
     [('MPI codec', 'pgp/utils.py int_to_mpi, mpi_to_int, mpi_length'),
      ('fixed-width codec', 'pgp/utils.py int_to_bytes, bytes_to_int, '
       'int_to_hex, hex_to_bytes')],
     'Whole finite domains, bit-boundaries elsewhere.')

prop('C03', 'Every packet type keeps all of its fields',
     'For every packet type the library knows, the fields read from a '
     'packet are the ones RFC 4880 puts there, a packet made from those '
     'fields is written as those octets, and reading then writing any packet '
     'gives back the same octets. Packets are equal exactly when they say '
     'the same. A value that does not fit its field is refused when it is '
     'written.',
     ['inputs'],
     'The product of boundary values of every field of every packet type, '
     'in both header formats.',
     'Tests look at packets of two keys and a few messages, and never at '
     'most field combinations.',
     ['pgp/packets/packets.py', 'pgp/packets/user_attribute_subpackets.py'],
     [('field layouts', 'pgp/packets/packets.py from_packet_content and '
       'content of every packet class')],
     'Exhaustive over the product of the listed field values.')

prop('C04', 'Signature subpackets keep type, criticality, value and order',
     'Reading the subpackets of a signature gives every subpacket, known or '
     'not, with its type, critical bit and value in the order they have, '
     'and writing gives the same octets. What a subpacket is made to say is '
     'what it is written as; what does not fit is refused.',
     ['inputs'],
     'All subpacket types with all combinations of boundary field values, '
     'content lengths around the length encodings, all sequences of up to '
     'three in both areas.',
     'Tests meet the five or six subpacket types that GnuPG put into the '
     'stored signatures.',
     ['pgp/packets/signature_subpackets.py', 'pgp/packets/packets.py'],
     [('subpacket codecs', 'pgp/packets/signature_subpackets.py')],
     'Exhaustive over the listed field values and sequences; shortest '
     'length encodings only.')

prop('C05', 'ASCII armor round trips and damaged armor is refused',
     'Data written as ASCII armor is recovered exactly with its label, part '
     'numbers and headers, in every layout RFC 4880 allows, given as text or '
     'as octets, and an independent reader agrees; a header stays on its '
     'line. Armor whose data or checksum was changed in '
     'transit is refused.',
     ['inputs', 'fault_sequences'],
     'All data lengths up to the bound, every label, header combination and '
     'layout; every single-character and single-line fault of sample '
     'blocks.',
     'Tests armor nothing and read a few intact blocks; faults are not '
     'tested.',
     ['pgp/armor.py', 'pgp/crc24.py', 'pgp/packets/parsers.py'],
     [('reader and writer', 'pgp/armor.py ASCIIArmor'),
      ('checksum', 'pgp/crc24.py crc24')],
     'Exhaustive for single faults; data is patterned.')

prop('C06', 'String-to-key gives the key RFC 4880 defines',
     'For every specifier, hash, salt, count, passphrase and cipher, the '
     'derived key is the one RFC 4880 defines, of the length of the cipher, '
     'and the specifier is read and written without loss.',
     ['inputs'],
     'All specifiers, hashes and ciphers, passphrase lengths around the '
     'hashing boundaries, all 256 coded counts in the codec and the counts '
     'up to the bound in the derivation.',
     'Tests use one specifier with one passphrase; the boundaries (long '
     'passphrases, keys longer than a digest) are not reached.',
     ['pgp/s2k.py', 'pgp/utils.py'],
     [('derivation', 'pgp/s2k.py to_key'), ('codec', 'pgp/s2k.py from_bytes, '
                                            '__bytes__, parse_s2k_bytes')],
     'Exhaustive within the bounds against hashlib.')

prop('C07', 'Cipher modes are standard and independent of chunking',
     'Each cipher in each mode of operation computes the standard '
     'transformation, decryption inverts encryption, and the result does '
     'not depend on how the data was cut into successive calls, nor on what '
     'becomes of the values given and returned. The library\''
     's own IDEA is the IDEA of its definition for all keys and blocks.',
     ['inputs', 'histories'],
     'All cipher numbers and modes, all cuts of up to the bounded number of '
     'blocks into calls; IDEA on boundary words in every key and data '
     'position and exhaustively in its multiplication and inverses.',
     'Tests check a few vectors in one call each.',
     ['pgp/cipher/base.py', 'pgp/cipher/aidea.py', 'pgp/cipher/camellia.py',
      'pgp/cipher/twofish.py', 'pgp/cipher/wrapper.py', 'pgp/utils.py'],
     [('modes', 'pgp/cipher/base.py'), ('IDEA', 'pgp/cipher/aidea.py')],
     'Exhaustive over call sequences within the bound; single blocks of '
     'third-party ciphers are trusted.')

prop('C08', 'Reading any octets ends, and what is accepted is usable',
     'Reading any octets as packets, as a key or as a message, armored or '
     'not, ends: the input is refused by an exception, or what was read can '
     'be written, the octets written are read again and written as the same '
     'octets, and every attribute and representation of every object of it '
     'can be asked without an error. The user IDs, user attributes and '
     'subpackets of signatures of what was read are written with the same '
     'octets. Damage to a packet does not change the '
     'packets before it, and damaged armor never gives other content.',
     ['inputs', 'fault_sequences'],
     'Every truncation, deletion, insertion, repetition and a set of '
     'replacements (thorough: all) of every octet of sample keys and '
     'messages of every packet and subpacket type, also inside compressed '
     'and encrypted data; all inputs of up to two octets and boundary ones '
     'of up to four; every packet, subpacket and specifier type with bodies '
     'of every length; nesting to depth 1000.',
     'Tests read intact data made by GnuPG; damaged and minimal forms are '
     'far too many to write as examples.',
     ['pgp/packets/packets.py', 'pgp/packets/signature_subpackets.py',
      'pgp/packets/parsers.py', 'pgp/message.py', 'pgp/signature.py',
      'pgp/transferrable_keys.py', 'pgp/s2k.py', 'pgp/armor.py'],
     [('reading packets', 'pgp/packets/parsers.py; pgp/packets/packets.py '
       'from_packet_content of every packet class'),
      ('reading keys and messages', 'pgp/transferrable_keys.py '
       'from_packets; pgp/message.py from_packets; pgp/signature.py '
       'from_packet'),
      ('writing', 'content and to_packets of the same classes')],
     'Exhaustive single faults of samples and exhaustive over the listed '
     'short forms; combinations of two faults are not covered.')

prop('C09', 'Modified integrity-protected messages are never returned',
     'Encrypted data decrypts to exactly what was encrypted, by the layout '
     'RFC 4880 defines, with every cipher. Integrity-protected data that '
     'was changed in any way, or whose modification detection code is '
     'missing or wrong, is refused and nothing of it is returned. Messages '
     'are integrity-protected unless told otherwise, and session keys, '
     'salts and random prefixes are fresh for every message.',
     ['inputs', 'fault_sequences'],
     'All ciphers, lengths up to the bound, both packet kinds; every bit '
     'flip, cut, removal, repetition, extension and block swap of sample '
     'messages.',
     'Tests decrypt two intact messages; no test modifies one.',
     ['pgp/message.py', 'pgp/packets/packets.py', 'pgp/utils.py'],
     [('encryption and MDC', 'pgp/message.py '
       'SymmetricallyEncryptedMessageData')],
     'Exhaustive single faults over sample messages of every cipher; '
     'cryptographic strength is assumed.')

prop('C10', 'Exactly the recipients of a message can read it',
     'A message encrypted to any list of public keys (named or hidden) and '
     'passphrases is decrypted by every one of them, in any order of the '
     'list, and by nobody else. Session key blocks that are malformed or of '
     'unknown kinds open nothing and do not keep other recipients from '
     'reading; a locked key reads nothing.',
     ['inputs', 'configurations'],
     'All sequences of up to the bound of recipients from a pool of RSA and '
     'ElGamal keys and passphrases, all readers, a fixed set of malformed '
     'blocks.',
     'Tests have one recipient each.',
     ['pgp/message.py', 'pgp/packets/packets.py'],
     [('session key selection', 'pgp/message.py '
       'EncryptedMessageWrapper.get_message'),
      ('session key blocks', 'pgp/packets/packets.py '
       'PublicKeyEncryptedSessionKeyPacket, '
       'SymmetricKeyEncryptedSessionKeyPacket')],
     'Exhaustive over recipient lists within the bound and all readers.')

prop('C11', 'Message layers come apart into what they were made of',
     'Any stack of signing, compressing and encrypting layers over a '
     'literal message is written as the message RFC 4880 defines, and taking '
     'it apart gives back each layer, its parameters and the original '
     'content. Incomplete compressed data is refused, and a signature is '
     'never presented over one of several contents.',
     ['inputs', 'histories'],
     'All layer stacks up to the depth bound, both directions, six encoding '
     'variants; every truncation of compressed data; all packet sequences '
     'up to length five.',
     'Tests build one stack.',
     ['pgp/message.py', 'pgp/packets/packets.py', 'pgp/utils.py'],
     [('message grammar', 'pgp/message.py open_pgp_message_from_packets, '
       'SignedMessageWrapper, CompressedMessageWrapper'),
      ('compression', 'pgp/utils.py get_compression_instance')],
     'Every trace of the layer model up to the depth is executed on the '
     'code in both directions.')

prop('C12', 'A signature verifies exactly when the key it names made it over '
     'that content',
     'A key verifies a signature if and only if the signature names the key '
     'as its issuer and is, by the rules of RFC 4880, a signature of that '
     'key over exactly the given document, user ID, user attribute, key or '
     'subkey. Signatures made by anyone following the RFC verify, and '
     'signatures made by the library verify for everyone; any change of the '
     'signed data or of the signature integers, another key, another '
     'content, or a truncated or malformed packet is refused. That is so '
     'for what the objects say now, however often they were changed or '
     'verified before. DSA nonces '
     'are never repeated, locked and encryption-only keys do not sign, and '
     'signing needs no more than an unlocked key.',
     ['inputs', 'fault_sequences'],
     'All keys, hashes, versions, types and kinds of target in both '
     'directions, all pairings, every bit flip and truncation of sample '
     'signatures and content, boundary values of the integers, malformed '
     'padding, all forms of subpacket lengths.',
     'Tests verify four signatures of one key each.',
     ['pgp/transferrable_keys.py', 'pgp/signature.py', 'pgp/utils.py',
      'pgp/packets/packets.py', 'pgp/packets/signature_subpackets.py'],
     [('verification', 'pgp/transferrable_keys.py BasePublicKey.verify, '
       'pgp/utils.py verify_hash'),
      ('signing', 'pgp/transferrable_keys.py BaseSecretKey.sign, '
       'pgp/utils.py sign_hash'),
      ('signed octets', 'to_signable_data in pgp/signature.py, '
       'pgp/message.py, pgp/transferrable_keys.py')],
     'Exhaustive within the bounds; the strength of RSA, DSA and the hashes '
     'is assumed.')

prop('C13', 'Secret keys open with their passphrase only, and close again',
     'A secret key or subkey, protected in any way RFC 4880 or GnuPG '
     'defines, unlocks with its passphrase to exactly the secret values '
     'that were protected. A wrong passphrase, or protected material that '
     'fails its checksum or hash or lacks values, is refused and leaves the '
     'key locked with no secret values. While locked no secret operation is '
     'possible and no secret value is held; locking, leaving or failing to '
     'enter an unlocked context discards the values again. Keys whose '
     'secret part is elsewhere stay locked and do not keep their subkeys '
     'from opening. The written form never changes by any of this, and '
     'secret keys the library protects open elsewhere.',
     ['inputs', 'histories', 'fault_sequences'],
     'All protections (usage, cipher, S2K kind, hash, count, version), key '
     'kinds and passphrases; every bit flip of protected material; all '
     'operation sequences up to the depth over keys with two subkeys.',
     'Tests unlock two keys with their passphrase.',
     ['pgp/transferrable_keys.py', 'pgp/packets/packets.py', 'pgp/s2k.py',
      'pgp/context_managers.py'],
     [('lock and unlock', 'pgp/transferrable_keys.py BaseSecretKey.unlock, '
       'lock'),
      ('secret values', 'pgp/packets/packets.py '
       'SecretKeyPacket.decrypt_encrypted_key_portion, '
       'encrypt_key_values'),
      ('contexts', 'pgp/context_managers.py LockingContextManager')],
     'All states of the lock model are reached and every trace within the '
     'depth is executed on real keys.')

prop('C14', 'Transferable keys are read and written as the keys they are',
     'Any sequence of packets that RFC 4880 11.1 allows as a transferable '
     'public or secret key is read into that key with each signature under '
     'the part it is on, and written back as it was (user IDs before user '
     'attributes, local trust packets aside); other sequences are refused. Fingerprint, key ID, size, '
     'creation and expiration are those of the key packet in every time '
     'zone, whatever the key kind, version and header form, also after its '
     'numbers or times were changed; the keygrip is that of its numbers, '
     'public or secret. The public copy '
     'of a secret key, locked or unlocked, is exactly its public key with '
     'no secret in it, and stays so whatever becomes of the secret key. Armored and saved keys read back the same, under the '
     'right label.',
     ['inputs', 'configurations'],
     'All packet words up to the depth over fifteen packet kinds; all key '
     'numbers, v3 validity periods, certificate shapes; every half hour '
     'around the clock changes of six time zones.',
     'Tests read four keys in one time zone.',
     ['pgp/transferrable_keys.py', 'pgp/shortcuts.py', 'pgp/utils.py',
      'pgp/packets/user_attribute_subpackets.py'],
     [('grammar', 'pgp/transferrable_keys.py validate_transferrable_key, '
       'TransferablePublicKey.from_packets'),
      ('identity', 'pgp/utils.py key_packet_fingerprint; '
       'pgp/transferrable_keys.py BasePublicKey'),
      ('public copies', 'pgp/transferrable_keys.py to_public_key'),
      ('files', 'pgp/shortcuts.py')],
     'Every word of the grammar automaton up to the depth, with one-packet '
     'deviations, is replayed on the real parser.')


prop('C15', 'Signature and key attributes are what their subpackets say',
     'Each attribute of a signature (times, exportable, trust, regular '
     'expressions, revocable, notations, revocation keys and reason, '
     'preferences, key flags, features, URIs, issuers, embedded signatures) '
     'reads as RFC 4880 5.2.3 gives the meaning of its first subpacket '
     '(hashed before unhashed), and as nothing when there is none. After '
     'assigning an attribute it reads as the value assigned, all other '
     'attributes and subpackets are as before, and the signature as written '
     'and read again has these attributes; moving the creation time keeps '
     'the expiration instant, and an expiration that is not after the '
     'creation is refused, and fractions of seconds are dropped. The attributes of a key, subkey, user ID or user '
     'attribute are those of its most recent self-signature of the right '
     'type (revocation reasons: of its most recent revocation), and '
     'assigning them changes that signature only.',
     ['inputs', 'histories'],
     'All attribute subpackets in all values and placements of the domain; '
     'all assignment sequences up to the depth from several initial '
     'signatures; all histories of up to three (thorough: four) signatures '
     'on each part of a key.',
     'No test assigns an attribute or reads one beyond the preferences of '
     'four keys.',
     ['pgp/signature.py', 'pgp/transferrable_keys.py',
      'pgp/packets/signature_subpackets.py'],
     [('attributes', 'pgp/signature.py BaseSignature, '
       '_get_subpacket_values, _update_subpacket_values'),
      ('subpackets', 'pgp/packets/signature_subpackets.py'),
      ('of keys', 'pgp/transferrable_keys.py SignedMixin, '
       'get_most_recent_selfsig')],
     'Every assignment sequence within the depth is executed on real '
     'signatures and compared with the model and an independent parser.')


prop('C16', 'A keyring is a map from fingerprints to keys',
     'After any sequence of operations a keyring file contains exactly the '
     'keys that were added and not deleted, each as last added or updated, '
     'secret keys in secret and public keys in public keyrings, and every '
     'key that was not touched is octet for octet as it was. Listing, '
     'membership, iteration and look-up by fingerprint, key ID and short '
     'key ID (in either case) agree with that content through every handle '
     'on the file, also after changes through another one; adding a key '
     'that is there or updating, deleting or getting one that is not is '
     'refused and changes nothing, as is any change to a read-only keyring. '
     'A database applies changes to the first suitable of its resources '
     '(where there is none, it refuses to add) and '
     'searches them all, by fingerprint, key ID and user ID, and a search '
     'finds all keys that have what is searched for.',
     ['histories', 'configurations'],
     'All operation sequences up to the depth over three keys in two '
     'versions, several initial keyrings, one or two handles; sixteen '
     'database configurations.',
     'No test uses a keyring.',
     ['pgp/db/gpg.py', 'pgp/packets/parsers.py'],
     [('keyrings', 'pgp/db/gpg.py Keyring'),
      ('databases', 'pgp/db/gpg.py GPGDatabase'),
      ('opening', 'pgp/db/gpg.py get_resource')],
     'Every sequence within the depth is executed on real files and '
     'compared with the reference map.')


prop('C17', 'A change of a keyring happens completely or not at all',
     'Whatever happens while a keyring is created or changed - the process '
     'is ended at any file operation, a file operation fails or writes only '
     'a part, the user interrupts, the power is lost - the keyring file is '
     'afterwards exactly as before or exactly as changed, never truncated, '
     'mixed or missing; keys are never readable through a copy with wider '
     'permissions than the keyring; a change that reports success was made, '
     'one that failed leaves no copies of keys behind; and the next process '
     'can use and change the keyring without help (the lock of a process '
     'that is gone does not stay).',
     ['crash_points', 'fault_sequences'],
     'Every file operation of every change of the domain as crash point '
     '(before, partial, after), fault (once, lasting, partial) and '
     'interruption; all disk states after power loss at every point.',
     'No test writes a keyring, and none can end the process within a '
     'change.',
     ['pgp/db/gpg.py'],
     [('replacement', 'pgp/db/gpg.py Keyring._write'),
      ('locking', 'pgp/db/gpg.py Lock'),
      ('changes', 'pgp/db/gpg.py Keyring.add_transferrable_key, '
       'update_transferrable_key, delete_transferrable_key, create_db')],
     'The real code runs under an interposed C library; each file operation '
     'is a branching point of the exploration.')


prop('C18', 'At most one at a time changes a keyring',
     'However the threads and processes that use a keyring are scheduled, '
     'at most one of them holds its lock, the lock may be taken again by '
     'the one who holds it and is free after as many releases, waiting '
     'ends with the lock or, no sooner than asked, with a time-out, the '
     'lock of a process that is gone is removed - but never one that '
     'somebody holds, not on another host and not a new one - and whoever '
     'comes last gets it. Concurrent additions, updates, deletions and '
     'look-ups have the results of some sequential order of whole '
     'operations: none is lost and no key appears twice. A forked process '
     'neither has nor removes the lock of its parent.',
     ['schedules', 'crash_points'],
     'All schedules of two and three threads or processes within the '
     'preemption bound, with one or two processes ending anywhere, from '
     'free, stale, foreign and live locks.',
     'A test runs one schedule.',
     ['pgp/db/gpg.py'],
     [('locking', 'pgp/db/gpg.py Lock'),
      ('changes under the lock', 'pgp/db/gpg.py Keyring')],
     'The real code runs as coroutines that hand over at every file '
     'operation, lock operation, signal and sleep; the scheduler explores '
     'all choices within the bounds.')


prop('C19', 'Signatures are expired and revoked exactly when they say so',
     'A signature is expired exactly from its creation time plus its '
     'validity period on, in every time zone and across changes of summer '
     'time. A certification, binding or direct signature is revoked exactly '
     'when a revocation on the same key, user ID, user attribute or subkey '
     'by the same issuer names it as target, or names no target and was not '
     'made before it - and never when it says that it is not revocable. A '
     'revocation whose target is not there revokes nothing; the target of '
     'one that names none is the only other signature of its issuer there, '
     'if there is just one. The self-signatures, current self-signatures and revocations of a key, '
     'user ID, attribute or subkey are those of the key itself and its '
     'subkeys, current ones being neither expired nor revoked, and it is '
     'revoked exactly when there is such a revocation. The check of what '
     'speaks against a signature tells a signature made before its key or '
     'in the future, and a signing key that is expired or revoked.',
     ['histories', 'configurations'],
     'All sequences of up to three signatures over an alphabet of '
     'twenty-five on all four kinds of holders; all pairs of times around '
     'the clock changes of seven time zones.',
     'No test looks at expiration or revocation.',
     ['pgp/signature.py', 'pgp/transferrable_keys.py'],
     [('validity', 'pgp/signature.py BaseSignature.expired, revoked, '
       'target'),
      ('of keys', 'pgp/transferrable_keys.py SignedMixin')],
     'Every history within the bounds is executed on the real code and '
     'compared with the reference model.')

prop('C20', 'Regular expressions are judged by the syntax of RFC 4880',
     'A regular expression of a trust signature is accepted exactly when it '
     'follows the syntax of RFC 4880 section 8 (branches, pieces, groups, '
     'ranges in which a closing bracket may come first and a backslash is '
     'nothing special, escaped characters). Any other text is refused, with '
     'the position of the first character that no expression can have '
     'there, or of the last character when something is left open.',
     ['inputs'],
     'All texts up to five characters over all characters with a meaning, '
     'longer ones over fewer, all sequences of up to four pieces.',
     'No test validates a regular expression.',
     ['pgp/regex.py', 'pgp/exceptions.py'],
     [('validation', 'pgp/regex.py validate_subpacket_regex'),
      ('error', 'pgp/exceptions.py RegexValueError')],
     'Every text within the bounds is given to the real validator and '
     'judged by an independent state machine of the grammar.')

prop('C21', 'The parts of a user ID are what it was written with',
     'The name, comment and e-mail address of a user ID - and of the user '
     'ID that a signature names as its signer - are exactly the ones it was '
     'written with by the conventions of RFC 2822, whichever of them are '
     'there. Setting one of them changes that one and neither of the '
     'others, and the user ID is written as the octets of its text. Reading '
     'the parts of any text comes to an end with three texts.',
     ['inputs', 'histories'],
     'All names and comments up to four characters over an alphabet with '
     'all special characters, all combinations of parts and forms, all '
     'texts up to five characters, all sequences of up to four changes.',
     'No test reads or sets the parts of a user ID.',
     ['pgp/user_id.py', 'pgp/transferrable_keys.py', 'pgp/signature.py'],
     [('parsing', 'pgp/user_id.py parse_user_id'),
      ('changing', 'pgp/transferrable_keys.py UserID'),
      ('of signers', 'pgp/signature.py issuer_user_name, '
       'issuer_user_email, issuer_user_comment')],
     'Exhaustive within the alphabets and bounds.')

prop('C22', 'Key servers are read faithfully and never told secrets',
     'A search gives every key of the index the server answered with, in '
     'order, with all of its fields and with its own user IDs, whichever '
     'empty fields and trailing colons are left off and whatever other '
     'lines there are. Requests go to the server, port and transport of '
     'the URL (TLS when it says so) and carry exactly the terms and options '
     'given; errors of the server are raised. What is submitted is exactly '
     'the public part of the key, never secret key material nor local '
     'certifications, and the key itself stays as it is.',
     ['inputs', 'configurations'],
     'All indexes of up to four lines over an alphabet of ten, all field '
     'values listed, all URLs, terms and statuses listed, all combinations '
     'of kinds of key, protection, subkeys and up to two certifications.',
     'No test uses the key server client.',
     ['pgp/keyserver/hkp.py', 'pgp/keyserver/__init__.py',
      'pgp/transferrable_keys.py'],
     [('index', 'pgp/keyserver/hkp.py HKPResult, HKPUserIdResult, '
       'HKPKeyserverClient._read_mr'),
      ('requests', 'pgp/keyserver/hkp.py HKPKeyserverClient'),
      ('public part', 'pgp/transferrable_keys.py to_public_key')],
     'Exhaustive within the alphabets, on the prepared requests of the '
     'requests package.')

prop('C23', 'Passphrases are exactly those entered, kept as told',
     'A passphrase got from an agent is exactly the one the agent sent, '
     'whatever characters it has and however the reply is divided into '
     'lines and chunks; one got from the terminal was entered and repeated '
     'alike as often as asked, after the texts given were shown. The agent '
     'is sent exactly the texts, options and cache ID given. A reply that is an error or that ends early '
     'raises an error - it neither gives a passphrase nor waits forever - '
     'and the connection is always closed. A cache is read and written '
     'only when it is to be used, and gives the passphrase last entered '
     'until it is cleared.',
     ['histories', 'crash_points', 'inputs'],
     'All replies of up to three lines, all divisions into up to three '
     'chunks, all points at which the agent goes away, all combinations of '
     'parameters, all histories of the cache up to five operations, all '
     'sequences of up to seven answers on the terminal, all texts.',
     'No test runs a pinentry.',
     ['pgp/pinentry/gpg_agent.py', 'pgp/pinentry/getpass.py'],
     [('agent', 'pgp/pinentry/gpg_agent.py GPGAgentPinentry'),
      ('terminal', 'pgp/pinentry/getpass.py GetPassPinentry')],
     'Every history and fault within the bounds, over a real socket.')

prop('C24', 'Signed text keeps its content; only line ends may differ',
     'A text or binary message read from or written to a literal packet has '
     'exactly the characters or octets of the packet in the character set '
     'of its format. A text signature on it verifies exactly when the text '
     'signed is the same apart from LF and CRLF line ends, and a binary '
     'signature exactly when all octets are the same, in every literal '
     'format, signature version and message form.',
     ['inputs'],
     'All texts of up to five characters over line ends, white space and '
     'characters outside of ASCII, all texts one edit away from those of up '
     'to three, line ends around the sizes of buffers.',
     'Tests verify two signatures on one text without line ends of the '
     'other kind.',
     ['pgp/message.py', 'pgp/packets/packets.py', 'pgp/signature.py'],
     [('canonical text', 'pgp/message.py LiteralMessage.to_signable_data, '
       'TextMessage.to_signable_data'),
      ('formats', 'pgp/message.py LiteralMessage.from_packet; '
       'pgp/packets/packets.py LiteralDataPacket')],
     'Exhaustive within the alphabet and bounds, with an independent model '
     'as the signer and as the verifier.')

prop('C25', 'Asking and using objects changes neither them nor other objects',
     'Serialising, verifying, signing, encrypting, decrypting, unlocking and '
     'locking, converting, comparing and reading attributes leave everything '
     'that can be observed of keys, signatures and messages, and the octets '
     'they are written as, as they were, also when the operation fails, and '
     'give the same whatever was done before. What a caller changes in one '
     'object, or in a list or octets it passed to a call, shows in no other '
     'key, message or packet.',
     ['histories'],
     'All sequences of operations to a depth in a world of thirteen objects; '
     'all operations that change one object (attributes, lists, content, '
     'lock) against the others; all calls with lists and octets, repeated.',
     'Tests look at the result of one call on a new object, not at all that '
     'has to stay.',
     ['pgp/transferrable_keys.py', 'pgp/signature.py', 'pgp/message.py',
      'pgp/packets/packets.py'],
     [('defaults', 'pgp/transferrable_keys.py SignedMixin'),
      ('signing', 'pgp/transferrable_keys.py BaseSecretKey.sign, '
       'to_public_key; pgp/signature.py from_packet'),
      ('messages', 'pgp/message.py to_signable_data, public_key_encrypt')],
     'Bounded exploration of operation sequences with the canonical state '
     'being all that is observable; result against a fresh world.')
