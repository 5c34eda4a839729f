"""Which property the defect repaired by a commit belongs to."""

MAP = {
 'C02': ['count the bits of multi', 'refuse numbers that do not fit'],
 'C01': ['use a four-octet length', 'write the length octet of empty',
         'read partial body lengths', 'read old-format packets of indet',
         'report truncated packets', 'packet types above 15'],
 'C03': ['read and write all eight octets', 'read all eight octets',
         'compare v3 signature', 'write back literal', 'construct marker',
         'keep the second octet of trust', 'keep octets of user IDs',
         'recognise the wild card', 'read and write GnuPG',
         'write GnuPG', 'keep the secret values given',
         'one-pass signatures of different', 'unknown packets are equal'],
 'C04': ['keep the content of subpackets', 'terminate regular',
         'parse and write revocation key', 'read the whole fingerprint of '
         'additional', 'parse and write signature target',
         'do not decode notation', 'keep unknown flags',
         'keep the at sign'],
 'C05': ['keep armor headers on one', 'read armor given as octets',
         'keep octets of comments', 'keep unknown armor headers'],
 'C06': ['hash the whole of long'],
 'C07': ['use 256-bit keys for Twofish'],
 'C08': ['write literal data of the formats', 'write one-pass messages with '
         'signatures that name', 'show signatures that name', 'read keys with '
         'signatures that have no', 'signatures of messages have no target',
         'the target of a revocation may', 'signatures within signatures are',
         'write secret key packets without', 'trust packets without a cache',
         'keep all of the class octet', 'refuse truncated image', 'keep the octets of signatures within',
         'refuse octets that are not the start'],
 'C09': ['encrypt and decrypt data that is not', 'check the integrity',
         'refuse integrity protected', 'decrypt and write messages without'],
 'C10': ['go on to the next session key',
         'read the whole of passphrase-encrypted session',
         'encrypt session keys with a passphrase', 'use a random exponent',
         'decrypt RSA session keys', 'encrypt for hidden', 'hide the key ID',
         'try all session keys', 'encrypt with RSA encrypt-only',
         'a session key block without', 'session keys by unknown',
         'encrypted session keys are'],
 'C11': ['keep the character set of text', 'read and write signatures that '
         'precede', 'announce all signatures', 'compress all of the data',
         'decompress BZip2', 'ignore marker packets', 'report packets that '
         'do not start', 'refuse compressed data'],
 'C12': ['verify RSA signatures', 'read subpacket lengths of all', 'refuse RSA signature values', 'count the bits of the DSA',
         'do not print the secret exponent', 'read and make version 3 '
         'signatures', 'sign text and bytes', 'order of the values of DSA',
         'sign and verify bindings', 'do not change the subpackets passed', 'sign messages with a preferred digest'],
 'C13': ['write the checksum of secret keys', 'do not open part of a secret key', 'verify the checksum of secret', 'unlock v3', 'read secret keys '
         'that are not', 'protect the values', 'read secret keys protected '
         'with the MD5', 'unlock the subkeys', 'lock what was unlocked'],
 'C14': ['the parts of a public copy', 'read keys with trust packets', 'compute the fingerprint of v3', 'take the key ID of v3',
         'exact bit length', 'secret prime', 'user attributes other',
         'accept revocations of subkeys', 'a key that ends in a subkey',
         'read all of a key that has trust', 'accept user IDs after',
         'tell the times of the hour', 'label of armored secret',
         'read and write the validity period', 'validity of version 3'],
 'C15': ['set one key flag of a signature', 'remove values left out', 'read and set the trust depth',
         'read and set whether', 'read and set the reason',
         'remove critical subpackets', 'make version 4 signatures with',
         'keep the expiration time when', 'unset the expiration',
         'key flags and features', 'use the most recent self',
         'attributes that version 3 keys', 'set the expiration time of a '
         'key', 'key expiration time is relative'],
 'C16': ['refuse to add keys that there', 'search for all keys with',
         'iterate over the fingerprints', 'type of empty keyrings', 'create missing keyrings',
         'keep the keys after one', 'keep secret keys out',
         'tell the keys of a keyring apart', 'update and delete keys in'],
 'C17': ['replace keyrings atomically'],
 'C18': ['set the offset table while', 'keyring lock excludes', 'remove the lock of a process that is gone even',
         'locks of keyrings in forked processes'],
 'C19': ['expiration of signatures across', 'find the explicit target',
         'a revocation is of all earlier', 'ignore revocations',
         'compare the hexadecimal digest', 'compare a signature with something',
         'expiration and order of signatures in the hour'],
 'C20': ['a repeated range', 'backslashes in ranges'],
 'C21': ['keep quoted local parts', 'keep parentheses and backslashes', 'user IDs that are only', 'name of a user ID', 'set the parts of a user ID',
         'do not add comments before the address', 'skip folding white', 'do not read comments within', 'read the address after a list'],
 'C22': ['read the index of a key server',
         'do not submit local', 'use HTTPS for key', 'use the default port', 'empty fields in HKP', 'submit only the public', 'empty HKP'],
 'C23': ['do not use the cache of the agent', 'do not wait forever for an agent', 'read all of a passphrase',
         'clear the passphrase before', 'disconnect from the agent', 'disconnect from an agent'],
 'C24': ['convert line endings'],
 'C25': ['do not share lists between keys'],
}


def property_of(commit, subject):
    found = [p for p, starts in MAP.items()
             for s in starts if subject[5:].startswith(s)]
    assert len(found) == 1, (subject, found)
    return found[0]
