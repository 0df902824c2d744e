prop('C04', 'AES is the FIPS-197 permutation for every key and every block',
 'For every 128-bit and 256-bit key and every 16-byte block, encrypting a block yields exactly the FIPS-197 AES ciphertext.',
 ['inputs'], 'all keys (2^128, 2^256) and all blocks, as one abstract state per key size',
 'The tests check a handful of published vectors; a wrong round constant, key word or final round for some keys is not covered by them.',
 [I+'aes.h', 'src/aes.cpp'], [('key expansion', 'AesKeySchedule / AesCompute in include/caligo/aes.h'), ('block encryption through AES-NI', 'AES::... in include/caligo/aes.h')],
 'value-numbering equivalence of the compiled key schedule and rounds with a FIPS-197 definition; AES-NI instructions expanded to their byte-table semantics',
 note='Every key and block at once: ciphertext bytes are compared as value-graph normal forms, so the result is for all inputs, relative to the engine and the intrinsic semantics.')
prop('C05', 'A digest depends only on the bytes fed, not on how or when they were fed',
 'For every hash class, the digest is the same however the message is split into updates, whatever was asked of the object in between, and whether it was fed to a fresh, copied, or wrapped (Hash, hex string, one-shot) object. Reading a digest never disturbs the object or its input.',
 ['inputs', 'histories'], 'all message contents; message lengths and split points enumerated around every block and padding boundary, and long messages up to 65601 octets; sequences of updates, copies and digest reads',
 'Each test hashes one fixed string in one or two calls; buffering bugs need particular split points or interleaved reads.',
 [I+'md5.h', I+'sha1.h', I+'sha2.h', I+'sha3.h', I+'hash.h', 'src/md5.cpp', 'src/sha1.cpp', 'src/sha2.cpp', 'src/sha3.cpp', 'src/hash.cpp'],
 [('partial block buffering', 'add()/consume in the hash classes'), ('padding on a copy of the state', 'data()/hash conversions')],
 'abstract interpretation over split points: value-numbering equality of digests of every update history with the one-shot digest, plus frozen-input and definedness rules',
 note='Contents abstract; lengths and splits enumerated (0..2 blocks + boundaries), so lengths beyond the bound rest on the buffering code being length-periodic.')
prop('C06', 'Every hash computes its published standard, padding and length field included',
 'For every message, MD5, SHA-1, SHA-224/256/384/512 and SHA3-224/256/384/512 return exactly the digest their standard defines, including padding at every residue of the block size and the encoded message length for very long messages.',
 ['inputs'], 'all message contents; lengths enumerated over all residues of the block size, long messages up to 65 KB (SHA-3: 6 KB), plus length-counter values up to beyond 2^32 bytes',
 'Known-answer tests cover a few short messages; wrong constants on rarely hit paths, padding at one residue or a truncated length field pass them.',
 [I+'md5.h', I+'sha1.h', I+'sha2.h', I+'sha3.h', 'src/md5.cpp', 'src/sha1.cpp', 'src/sha2.cpp', 'src/sha3.cpp'],
 [('compression functions', 'src/md5.cpp, src/sha1.cpp, src/sha2.cpp, src/sha3.cpp'), ('padding and length', 'the data()/finish functions')],
 'value-numbering equivalence of compiled digest code with reference definitions of the standards, message contents abstract',
 note='Contents fully abstract (all values at once), lengths enumerated; the length-field rule starts from an abstract counter.')
prop('C07', 'GCM seals and opens exactly as SP 800-38D defines',
 'For every key, IV, plaintext and associated data, encryption yields the SP 800-38D ciphertext and tag, decryption of that yields the plaintext, and any input whose tag does not match is rejected with an invalid result. This holds for every message of a sequence on one object and when the block counter wraps.',
 ['inputs', 'histories'], 'all keys, IVs and contents; lengths of plaintext/AAD/IV enumerated, up to several thousand octets; any block cipher output (cipher abstracted), and real AES',
 'Tests use published vectors of few lengths and never a forged tag at each position, a wrapped counter or a reused object.',
 [I+'gcm.h', I+'ghash.h', I+'aes.h'], [('CTR keystream and counter increment', 'GCM in include/caligo/gcm.h'), ('GHASH over GF(2^128)', 'include/caligo/ghash.h'), ('tag comparison', 'GCM::Decrypt')],
 'value-numbering equivalence with an SP 800-38D definition over an uninterpreted block cipher; carry-less products as bilinear forms',
 note='Contents abstract, lengths enumerated; non-12-byte IV counter increments are partly undecided and then only covered by refutation.')
prop('C08', 'ChaCha20 and CTR keystreams are exact, chunk-independent and self-inverse',
 'For every key and nonce, the keystream equals the RFC 8439 / SP 800-38A keystream at every position, block counter wrap included, however the caller splits the stream into requests. Applying the cipher twice restores the data.',
 ['inputs', 'histories'], 'all keys, nonces and counters; request lengths and splits enumerated, up to several thousand octets',
 'Tests compare one or two vectors from counter zero in a single request.',
 [I+'chacha20.h', I+'ctr.h'], [('quarter rounds and counter', 'include/caligo/chacha20.h'), ('counter increment and keystream buffer', 'include/caligo/ctr.h')],
 'value-numbering equivalence of keystream code with the RFC definition over abstract keys, nonces and counters',
 note='All contents abstract; request lengths enumerated.')
prop('C10', 'Choosing a hash by name gives exactly that hash, everywhere',
 'Constructing the generic hash from a name yields the digest, size and text of exactly the named algorithm, unknown names are refused, and copying, assigning or moving it keeps its state independent. Each algorithm announces the DigestInfo prefix and sizes of its standard.',
 ['inputs', 'histories'], 'all names of the registry and any other name; all message contents; copies and moves between uses',
 'Tests select three algorithms by name and never an unknown one, a copy in mid-stream or the prefixes.',
 [I+'hash.h', 'src/hash.cpp', I+'sha2.h', I+'sha3.h', I+'sha1.h', I+'md5.h'], [('name dispatch', 'src/hash.cpp'), ('DigestInfo constants', 'hash class headers')],
 'abstract interpretation of the dispatch over an enumerated name table with abstract contents; value-numbering equality with the concrete classes',
 note='Names enumerated (registry, near misses, prefixes); contents abstract.')
prop('C14', 'Base64 text is RFC 4648 in each alphabet and decoding inverts it',
 'For every byte string and option set, the text is the RFC 4648 encoding in the chosen alphabet with lines of at most 76 characters, and decoding returns exactly the bytes. Decoding reads digits of any of the alphabets, skips every other character and never reads or writes outside its input and output.',
 ['inputs'], 'all byte contents; all lengths up to two lines of text and some long ones; all 256 characters in each position class',
 'The tests encode a few fixed strings; line breaks, omitted padding and foreign characters are hardly reached.',
 [I+'base64.h', 'src/base64.cpp'], [('digit tables', 'src/base64.cpp'), ('bit accumulator', 'base64() / base64d()')],
 'abstract interpretation with table-composition normal forms: decode(encode(x)) folds to x for abstract bytes; interval rules classify characters',
 note='Contents abstract; lengths 0..124 (quick), 0..240 (thorough).')
prop('C15', 'HMAC, HKDF and the TLS 1.3 key schedule follow their RFCs',
 'For every hash, key, message, salt, info and context, HMAC equals RFC 2104, HKDF equals RFC 5869 and the TLS 1.3 labels and secrets equal RFC 8446, at every permitted length. Requests beyond the permitted lengths are refused.',
 ['inputs'], 'all contents; lengths enumerated around block and digest boundaries and up to the longest permitted output; every hash class, and an abstract hash for the long and unusual sizes',
 'The tests hold a few RFC vectors with SHA-256 only; long keys, other hashes and long outputs are not reached.',
 [I+'hkdf.h'], [('HMAC padding and nesting', 'HMAC in include/caligo/hkdf.h'), ('expand loop', 'HKDF_Expand in include/caligo/hkdf.h'), ('label encoding', 'HKDF_Expand_Label')],
 'value-numbering equivalence with RFC definitions over the verified hash code, contents abstract',
 note='Contents abstract; lengths enumerated.')
prop('C21', 'CRC-32 is the IEEE CRC for every message and every continuation',
 'For every message, the checksum equals the reflected CRC-32 (polynomial 0xEDB88320), and continuing from a previous checksum equals the checksum of the concatenation.',
 ['inputs', 'histories'], 'all contents and all running values; lengths enumerated',
 'The tests check one vector.',
 [I+'crc.h', 'src/crc.cpp'], [('CRC table and loop', 'src/crc.cpp')],
 'value-numbering equivalence over GF(2)-linear table normal forms with a bitwise definition of the polynomial division',
 note='Contents and running value abstract; lengths enumerated.')
prop('C01', 'No timing or address leak of private keys in X25519, RSA and their integers',
 'In X25519, RSA private-key operations and the big-integer, field and Montgomery arithmetic under them, no branch condition, memory address, division or early-exit comparison depends on the private scalar, the private exponent or any value computed from them. Key sizes, moduli and public points are public.',
 ['inputs'], 'all private values and all values computed from them, on every path of the analysed entry points',
 'A test sees results, not which addresses and branches produced them; the README promises side-channel freedom for every input.',
 [I+'bignum.h', I+'mont.h', I+'rsa.h', I+'x25519.h'], [('ladder and swaps', 'X25519 / ctime_swap'), ('exponentiation', 'MontgomeryValue::exp'), ('final subtraction', 'MontgomeryState::REDC'), ('comparison', 'bignum::operator== / operator<')],
 'interprocedural secret-taint dataflow over the compiled IR: every branch, address, division and memcmp operand must be independent of secret-labelled values',
 note='Decided on clang -O1 IR of the instantiations listed in the harness (64..2048-bit integers, 512-bit RSA, X25519); machine-level effects below IR are out of scope.')
prop('C02', 'No timing or address leak of keys, messages and tags in symmetric code',
 'In the hashes, HMAC, HKDF, AES, CTR, GCM and ChaCha20, no branch, memory address, division or early-exit comparison depends on a key, a message or a computed authenticator; only lengths are public. The verdict on a GCM tag is formed from all its bytes before anything branches on it.',
 ['inputs'], 'all keys, messages and tags, on every path; lengths enumerated',
 'A test sees results, not timing; a table lookup or early exit returns the same bytes.',
 [I+'aes.h', I+'gcm.h', I+'ghash.h', I+'ctr.h', I+'chacha20.h', I+'hkdf.h', I+'sha2.h', I+'sha3.h', 'src/aes.cpp', 'src/sha2.cpp', 'src/sha3.cpp'],
 [('tag comparison', 'GCM::Decrypt'), ('key expansion', 'src/aes.cpp'), ('GHASH multiplication', 'include/caligo/ghash.h'), ('counter increment', 'include/caligo/gcm.h, ctr.h')],
 'interprocedural secret-taint dataflow over the compiled IR: every branch, address, division and memcmp operand must be independent of secret-labelled values',
 note='Decided on clang -O1 IR; lengths enumerated, contents all secret at once.')
prop('C16', 'Big integers are exact, report every carry, and convert without loss',
 'Every bignum operation equals integer arithmetic on its whole range: sums, differences, products, shifts, comparisons, remainders, with the carry or borrow reported. Octet, word, size and text conversions keep every bit that fits, and operands are left unchanged.',
 ['inputs'], 'all operand values at 32..256 (thorough 512) bits and at 512, 1024 and 2048 bits for the elementwise operations; all shift, bit and length positions',
 'The tests compute a handful of constants; carries rippling through particular words and width-dependent loops are not sampled.',
 [I+'bignum.h'], [('add/sub/mul loops', 'bignum operators'), ('remainder', 'bignum::naive_reduce'), ('conversions', 'bignum constructors, as_bytes, slice, to_string')],
 'value-numbering equivalence of the compiled word loops with schoolbook arithmetic definitions; random interpretation refutes differences',
 note='Contents abstract at each enumerated width; about 1% of the obligations (remainders of abstract operands) are refutation-only.')
prop('C11', 'A certificate is trusted exactly when a verified chain leads to the store',
 'The first certificate of a list is trusted only if the given time lies within its validity and verified issuer links lead from it, through certificates of the list that do not borrow a trusted name, to a certificate of the store. The store starts with exactly the certificates of the system file, whole and under their own subject names; a decision never adds to or changes it, and certificates added count from then on.',
 ['inputs', 'histories'], 'all times and validity bounds; all lists of up to three certificates (thorough: four) over a small name alphabet with every combination of right and wrong issuer links and signers; chains of 4 to 9 in several orders; sequences of decisions and additions; system files of up to five certificates',
 'There is no test of trust decisions; wrong links, orders, duplicates of trusted names and repeated decisions are combinations a sample misses.',
 [I+'Truststore.h', 'src/Truststore.cpp'], [('chain walk', 'Truststore::trust'), ('store lookup and replacement', 'Truststore::get, Truststore::addCertificate')],
 'abstract interpretation of the compiled chain walk over enumerated link structures with symbolic times; verdicts compared with a reachability definition',
 note='Names and links enumerated, times abstract; signature checking is replaced by an oracle (C12, C09 decide it). Reading the system file goes through stand-ins for the file interface (files of 0, 1, 2, 5 certificates).')
prop('C12', 'A certificate verifies only if its issuer signed exactly its signed part',
 "verify() succeeds exactly when the certificate's validity lies within the issuer's and the issuer's key accepts the signature over exactly the signed part under the named algorithm. Unknown algorithms, wrong structure, truncation, unusable lengths or an issuer without a key fail, without reading outside the certificate.",
 ['inputs'], 'all contents of signed part and signature, all times, all tags and algorithm identifiers; lengths and length forms enumerated; every cut and every value of every header octet of a sample',
 'No test verifies a damaged, truncated or wrongly labelled certificate; each octet can be wrong in 255 ways.',
 [I+'X509Certificate.h', I+'Asn1.h', 'src/X509Certificate.cpp'], [('DER walk and algorithm choice', 'x509certificate::verify'), ('element reader', 'asn1_view::read'), ('validity nesting', 'x509certificate::verify')],
 'abstract interpretation over DER skeletons with abstract contents and a recording key object; byte ranges handed to the key compared by normal form; memory-bounds rules',
 note='Contents abstract, structure and lengths enumerated. Extensions (basicConstraints, key usage) are not implemented by the library and not claimed.')
prop('C13', 'Certificates, keys and PEM are read exactly, and damaged data is refused',
 'Every field of a certificate or private key - names, validity, serial number, modulus, exponents, key type, host name - has exactly the value its DER octets give it, PEM reads as the DER it carries, and every certificate of a PEM list is returned in order. Data cut short, mislabelled or with unusable lengths is refused or read within its bounds.',
 ['inputs'], 'all name, serial and key contents, all times of day in every month of the covered years; lengths enumerated; every cut, and header and content octets of a sample replaced',
 'The tests read a few fixed certificates; leap years, unusual attributes, long lengths, list ends and damaged data are not sampled.',
 [I+'X509Certificate.h', I+'Asn1.h', 'src/X509Certificate.cpp'], [('DER reader', 'asn1_view::read / peek'), ('dates', 'parseDer<x509date>'), ('names', 'parseDer<x509name>'), ('keys', 'parseDer<RsaPubkey>, parsePrivateKey'), ('PEM', 'parseCertificate, parseCertificatesPem')],
 'abstract interpretation over DER skeletons with abstract contents; fields compared by value-numbering normal form with reference definitions; memory-bounds rules on damaged skeletons',
 note='Contents abstract, structure enumerated. Dates: every month 1970-2049 plus selected years to 9999, digits abstract.')
prop('C09', 'RSA signatures follow RFC 8017 and only genuine ones verify',
 'PKCS#1 v1.5 and PSS signatures made with a private key have exactly the encoding of RFC 8017 for every hash and modulus size, and verify with the public key. Verification accepts a signature only if it has the length of the modulus, a value below it, and the full correct encoding for the given data under the scheme named; unknown schemes sign and verify nothing.',
 ['inputs'], 'all messages, salts, hash outputs, signature values and public exponents of one or two words; message lengths in each form of the DER length up to 70000 octets; modulus sizes enumerated at and off octet boundaries; every scheme number of TLS 1.3 and others',
 'The tests verify a few genuine signatures; each octet of the padding, range, salt length and scheme choice can be wrong without them noticing.',
 [I+'rsa.h', I+'pkcs1.h', 'src/X509Certificate.cpp'], [('encodings', 'generatePkcs1Data, generatePssData, MGF1, getSalt'), ('verification', 'rsa_public_key::validatePkcs1_5Signature, validatePssSignature'), ('dispatch', 'RsaPubkey::validateSignature, RsaPrivateKey::sign')],
 'abstract interpretation with exponentiation as an abstract permutation and hashes as abstract functions; encodings and verdicts compared by value-numbering normal form with RFC 8017 definitions',
 note='Contents abstract; sizes enumerated. Exponentiation itself is C22. The PKCS#1 v1.5 digest covers what callers of this library pass as message.')
prop('C17', 'X25519 is the function of RFC 7748 for every scalar and point',
 'For every 32-byte scalar and u coordinate, X25519 returns the canonical RFC 7748 result: scalar clamped, top bit of the coordinate ignored, non-canonical coordinates accepted modulo 2^255-19. The field operations are exact modulo 2^255-19 for every pair of 256-bit representatives.',
 ['inputs'], 'all scalars, coordinates and field representatives, as abstract values; boundary representatives (around 0, p, 2p, 2^255, 2^256) in every pair',
 'Test vectors never reach the carries that need operands within a few units of 2^256 or p; those happen about once in 2^250 random inputs.',
 [I+'x25519.h', I+'bignum.h'], [('field operations', 'operator+, operator-, operator*, applyModulus of ec_value'), ('ladder', 'X25519()'), ('inversion', 'inverse()')],
 'abstract interpretation in the value-graph domain with boundary constants: field operations compared modulo p with exact wide-integer definitions, the ladder with RFC 7748; random interpretation refutes differences',
 note='Boundary constants are decided by folding, the ladder on fully abstract scalars and points is refutation-only.')
prop('C03', 'Nothing is shared: objects, copies and threads never affect each other',
 'No operation of the library, other than adding to the trust store, writes memory that another object, copy or thread can reach, so independent or copied objects may be used by different threads. Interleaved, repeated or copied operations give exactly the results they would give alone.',
 ['schedules', 'histories'], 'every schedule of operations on separate objects: any unprotected write to static or shared memory by any operation is a violation, whatever the interleaving; copies taken after every prefix of an operation sequence',
 'Tests run single-threaded with one object at a time, so a static buffer, cache or lazily filled table goes unnoticed.',
 ['README.md', I+'hash.h', I+'ctr.h', I+'gcm.h', I+'random.h', I+'Truststore.h', 'src/Truststore.cpp', 'src/md5.cpp'], [('objects own their state', 'every class of include/caligo'), ('trust decisions use a local map', 'Truststore::trust'), ('randomness is per thread', 'generate_random_value'), ('read-only tables', 'src/md5.cpp, src/sha2.cpp, src/base64.cpp')],
 'effect analysis over the compiled code: every store of every operation is resolved to the objects it may write; writes to shared state outside initialisation, locks and atomics, or to a frozen copy, are violations',
 note='The effect rule is independent of schedules and contents; lengths and operation sequences are enumerated. Standard-library internals are trusted; the testValues hook is only read while empty.')
prop('C18', 'Random keys and numbers come whole and unrepeated from the entropy source',
 'Every element of a random fill, of every width and length, is written with bits of its own from the platform entropy source, and nothing outside is written. Random numbers and X25519 private keys have every free bit drawn independently, and consecutive draws share no bits.',
 ['inputs', 'histories'], 'all outputs of the entropy source; fills of 0 to 40 elements (and some up to 1000) of each width at every alignment; sequences of draws of mixed widths',
 'A test cannot tell a constant, reused or half-filled random value from a good one: one sample looks as random as another.',
 [I+'random.h', I+'bignum.h', I+'x25519.h'], [('fills', 'generate_random overloads'), ('source', 'generate_random_value'), ('numbers and keys', 'bignum::random, ec_value::random_private_key')],
 'dataflow from the entropy source to each output bit (value-numbering provenance), with a rank test over random valuations to refute reuse, bias or omission; memory-bounds rules',
 note='Decides where every bit comes from, not the quality of the platform source, which no static argument reaches.')
prop('C19', 'Primality testing is exact below 7920 and follows Miller-Rabin above',
 'Numbers below 7920 are called prime exactly when they are. Larger ones are called prime only if odd and passing Miller-Rabin for every prime base below 7920, and real primes always pass. A random prime is a freshly drawn number that passed, odd and with its top bit (top two in strict mode) set.',
 ['inputs', 'histories'], 'every number below 7920; primes with every power of two dividing n-1 (64-bit numbers; up to 2^300 for numbers of several words) and the places where -1 can appear in the sequence of squares; each base alone rejecting; any entropy',
 'Tests look at a few numbers; one wrong table entry, skipped base or off-by-one in the squaring loop passes unless that number, base or shape is tried.',
 [I+'random_prime.h'], [('table', 'miller_rabin_is_probably_prime'), ('squaring loop', 'miller_rabin_one_loop'), ('search', 'random_prime')],
 'abstract interpretation with exponentiation replaced by scripted residue sequences; the exponent, the set of bases and the verdict compared with the definition; provenance of random bits',
 note='The exponentiation itself is C22. That no composite passes all 1000 bases is a number-theoretic question and not claimed. Sizes that are multiples of 32 bits.')
prop('C20', 'Keys and nonces of the wrong size are refused, never padded, cut or overread',
 'Constructing AES, CTR, GCM or ChaCha20 with a key or nonce of a size other than the algorithm accepts fails with an error before any data is touched; the right sizes are accepted. No memory outside the given key or nonce is read, and a refused GCM nonce yields no text and verifies nothing.',
 ['inputs'], 'all key and nonce contents; key sizes 0 to 72 and nonce sizes 0 to 40 octets, each size',
 'Tests only use correct sizes; an overread of a short key goes unnoticed without a failing assertion.',
 [I+'aes.h', I+'ctr.h', I+'gcm.h', I+'chacha20.h', I+'key_iv_pair.h', 'src/aes.cpp'], [('key schedule', 'AesKeySchedule constructors in src/aes.cpp'), ('size checks', 'CTR, GCM and ChaCha20 constructors'), ('copying', 'key_iv_pair')],
 'abstract interpretation with memory-bounds rules over every size; outcome (throws or returns) compared with the accepted sizes',
 note='Contents abstract, sizes enumerated.')
prop('C22', 'Modular arithmetic and exponentiation are exact for every odd modulus',
 'For every odd modulus, Montgomery conversion, sums, products, squares and powers give the exact residue for all operands, and even moduli are refused. The RSA public and private operations are exactly the powers by e and d modulo n, whatever the exponent.',
 ['inputs'], 'all operands and exponents as abstract values for moduli around every word boundary and others; all odd moduli at once for single operations up to 256 bits; boundary operands in every pair',
 'Tests multiply a few numbers; dropped carries and missing final subtractions need operands and moduli near word boundaries.',
 [I+'mont.h', I+'rsa.h', I+'bignum.h'], [('reduction', 'MontgomeryState::REDC'), ('setup', 'MontgomeryState constructor, RecursiveInverseModPower2'), ('powers', 'MontgomeryValue::exp'), ('RSA', 'rsa_public_key::rsaep, rsa_private_key::rsadp')],
 'abstract interpretation in the value-graph domain: results compared with exact wide-integer definitions; boundary constants decided by folding, abstract operands by normal form or random interpretation',
 note='Enumerated boundary operands are decided; for fully abstract operands of more than one word the reduction is refutation-only. Moduli up to 256 bits in full (512 thorough); 512, 1024 and 2048 bits (4096 thorough) on concrete moduli and boundary operands.')
prop('C23', 'No composite number is ever accepted as a random prime',
 'random_prime never returns a composite number.', ['inputs'], 'all numbers of all sizes', 'The numbers that would fool 1000 bases are unknown.', [I+'random_prime.h'], [('Miller-Rabin', 'miller_rabin_is_probably_prime')],
 'none', claimed=False, na='Whether some composite passes Miller-Rabin for all 1000 prime bases is an open number-theoretic question about runtime values; no static analysis of this code decides it. C19 decides that the algorithm is the stated one.')
