import json
P=[]
def p(id,title,statement,over,q,why,files,mech,state=(),obs=()):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":q},"why_tests_cant":why,
      "anchors":{"files":files,"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":list(obs),"hook_needed":None}})
p("C01","ChaCha packet encryption equals RFC 7539 at every length",
 "For every key, nonce and packet length, encrypting a packet XORs it with the RFC 7539 ChaCha keystream for block counters 1,2,3,... (20 rounds by default, 12 or 8 in the reduced builds), the last partial block included. Every packet restarts at counter 1, the key and nonce held in the state are never disturbed, and no byte outside the output packet is written.",
 ["inputs","histories","configurations"],"every key, nonce, packet content, packet length below 2^31-4, every earlier use of the state, the three round configurations",
 "The tests encrypt a few fixed messages (mostly as round trips, which any self-consistent keystream passes); they cannot reach every length residue, block number and state.",
 ["StreamCiphers/ChaCha/chacha.cpp","StreamCiphers/ChaCha/chacha.h"],[("chacha_process_packet / chacha_block / inner_block","StreamCiphers/ChaCha/chacha.cpp"),("q_round","StreamCiphers/ChaCha/chacha.h")],
 [("state[16]","constants, key, counter, nonce","chacha.h")],["chacha_initialize","chacha_process_packet"])
p("C02","SHA-256 digest equals FIPS 180-4 for every message length",
 "For every message, hashing it yields exactly the FIPS 180-4 SHA-256 digest, whatever its length (each residue modulo the block size, the empty message included), in both places where the library ships the hash. The message is not modified and nothing but the 32 digest bytes is written.",
 ["inputs"],"every message of every length below 2^31-128 bytes",
 "The tests hash one fixed million-byte message and short HMAC inputs; padding boundaries (lengths 55..63 modulo 64) and the compression function on arbitrary data are never exercised.",
 ["Hash/SHA/SHA-2/SHA-256/sha-256.cpp","Authentication/HMAC-SHA-256/sha-256.cpp"],[("pad_message, sha256_process_message","Hash/SHA/SHA-2/SHA-256/sha-256.cpp")],(),["sha256_process_message"])
p("C03","HMAC tag equals RFC 2104 HMAC-SHA-256 truncated to the tag length",
 "For every key (shorter than, equal to or longer than the hash block) and every message, the generated tag is the leftmost requested bytes of RFC 2104 HMAC-SHA-256 of that message under that key. Generating a tag never changes the loaded key, so any number of messages can be tagged in any order.",
 ["inputs","histories"],"every key length from 0 up, every message length of at least 1, every tag length 0..32, every order of calls",
 "The tests print one tag and validate one round trip with one key size; wrong padding, truncation or long-key hashing would go unnoticed since both sides share the code.",
 ["Authentication/HMAC-SHA-256/hmac.cpp","Authentication/HMAC-SHA-256/sha-256.cpp"],[("hmac_load_key, hmac_tag_generation","Authentication/HMAC-SHA-256/hmac.cpp")],[("inner_key/outer_key","key xor ipad / opad","hmac.h")],["hmac_load_key","hmac_tag_generation"])
p("C04","HMAC validation accepts exactly the correct tag",
 "Validation returns 1 if and only if every byte of the presented tag equals the corresponding byte of the tag that would be generated for that message under the loaded key, and 0 otherwise. The verdict depends only on key, message and presented tag (never on leftover memory), for an empty message too, and nothing the caller passed is modified.",
 ["inputs","histories"],"every key, message (any length, zero included), presented tag and tag length 1..32",
 "A test can only try a handful of wrong tags; that no single-byte (or later-byte) difference is ever accepted is a statement over all tags.",
 ["Authentication/HMAC-SHA-256/hmac.cpp"],[("hmac_tag_validation","Authentication/HMAC-SHA-256/hmac.cpp")],(),["hmac_tag_validation"])
p("C05","MD5 digest equals RFC 1321 for any chunking of the message",
 "However a message is cut into successive updates (empty and unaligned pieces included), finalising yields the RFC 1321 MD5 digest of the concatenation. Each update absorbs its input exactly once, keeps the running bit count exact modulo 2^64, and writes only the hash context.",
 ["inputs","histories"],"every message, every split into update calls, every fill level of the internal buffer",
 "The test hashes one string in one call; the carry-over of partial blocks between calls is a property of all call sequences.",
 ["Legacy/MD5/md5.cpp","Legacy/MD5/md5.h"],[("MD5Init, MD5Update, MD5Final, MD5Transform","Legacy/MD5/md5.cpp")],[("count/buffer/state","bits absorbed, pending bytes, chaining value","md5.h")],["MD5Update","MD5Final"])
p("C06","AES-CTR equals standard AES-128 counter mode at every packet length",
 "For every key, IV and packet length, the output is the packet XORed with AES-128 of successive big-endian 32-bit-counter blocks, the last partial block using the leading bytes of its keystream block; the counter continues from packet to packet (one step per started block) and restarts when a new IV is loaded. This holds for the portable, x86 and ARM sources, with and without hardware instructions.",
 ["inputs","histories","configurations"],"every key, IV, data, packet length below 2^31-16, every packet sequence, five build variants",
 "The vectors cover whole blocks only, so partial final blocks, counter wrap and multi-packet use are not determined by them.",
 ["BlockCiphers/AES/AES/AES_CTR/aes_ctr.cpp","BlockCiphers/AES/AES_x86/AES_CTR/aes_ctr.cpp","BlockCiphers/AES/AES_ARM/AES_CTR/aes_ctr.cpp"],[("aes_ctr_process_packet, state_update, aes_load_key, aes_load_iv","aes_ctr.cpp")],[("registers and round keys","counter block and expanded key","aes_ctr.h")],["aes_ctr_process_packet"])
p("C07","AES-CFB is CFB-128 with carry-over and decryption inverts encryption",
 "On whole blocks, encryption and decryption are AES-128 CFB-128 with the feedback register carried over from packet to packet. For any sequence of packets of any lengths (partial final blocks included), a receiver with the same key and IV that processes the same packet boundaries recovers every packet exactly.",
 ["inputs","histories","configurations"],"every key, IV, data, sequence of packet lengths below 2^31-16, default and round-reduced builds, portable, x86 and ARM sources",
 "The test programs run a few fixed round trips; that both directions leave the same feedback register after every partial packet is a whole-history property.",
 ["BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp","BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp","BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp"],[("aes_cfb_process_packet, cfb_initialize_state, state update functions","aes_cfb.cpp")],[("feedback registers","last 16 ciphertext bytes","aes_cfb.h")],["aes_cfb_initialize","aes_cfb_process_packet"])
p("C08","Hardware-accelerated AES builds behave identically to portable ones",
 "For AES in CFB and CTR mode, the portable source, the x86 and ARM sources without intrinsics, and the x86 (AES-NI) and ARM (crypto extension) builds produce identical output bytes for identical inputs, packet after packet, for every packet length. Mixing builds on the two ends of a link never desynchronises it.",
 ["inputs","histories","configurations"],"every key, IV, data and packet sequence; all pairs of build variants",
 "Each variant's test only checks that it round-trips with itself.",
 ["BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp","BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp","BlockCiphers/AES/AES_x86/AES_CTR/aes_ctr.cpp","BlockCiphers/AES/AES_ARM/AES_CTR/aes_ctr.cpp"],[("encrypt_block intrinsics paths","aes_cfb.cpp, aes_ctr.cpp")],(),["aes_cfb_process_packet","aes_ctr_process_packet"])
p("C09","AEGIS-128 encryption equals the specification for all lengths",
 "For every key, IV, associated data and message of any lengths (each possibly empty or not a multiple of the block), the ciphertext and the 128-bit tag are exactly those of AEGIS-128 (CAESAR submission). Nothing but the ciphertext and the tag of the stated lengths is written, and the same inputs always give the same result.",
 ["inputs","histories"],"every key, IV, AD and message, every combination of length residues, AD below 2^33-16 and message below 2^60 bytes",
 "The vectors fix a few length combinations; lengths 1..15 and every other residue of AD and message are outside them.",
 ["StreamCiphers/AEGIS/AEGIS/aegis_128.cpp"],[("aegis_encrypt_packet, aegis_load_key, aegis_load_iv, state_update","StreamCiphers/AEGIS/AEGIS/aegis_128.cpp")],[("five 128-bit state words","AEGIS state","aegis_128.h")],["aegis_encrypt_packet"])
p("C10","AEGIS-128 decryption recovers valid messages and rejects forgeries",
 "Decrypting what encryption produced under the same key, IV and associated data returns success and the original message, at every length. If the presented tag differs in any bit from the correct tag of that ciphertext, IV and associated data, decryption reports failure and releases no plaintext.",
 ["inputs"],"every key, IV, AD, ciphertext and tag, every length below 2^31-16",
 "Tests check the accept path of a few vectors; rejection of every wrong tag at every length is universal.",
 ["StreamCiphers/AEGIS/AEGIS/aegis_128.cpp","StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp","StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp"],[("aegis_decrypt_packet","aegis_128.cpp")],(),["aegis_decrypt_packet"])
p("C11","AEGIS-128 hardware and portable builds are bit-identical",
 "The x86 and ARM AEGIS-128 sources, compiled with and without hardware AES instructions, compute the same ciphertext, tag and accept/reject decision as the portable source, for every input.",
 ["inputs","configurations"],"every key, IV, AD, message and tag, every length, the five build variants",
 "Each variant is only tested against its own vectors.",
 ["StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp","StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp"],[("aesround / state_update intrinsics paths","aegis_128.cpp")],(),["aegis_encrypt_packet","aegis_decrypt_packet"])
p("C12","HC-128 keystream equals the eSTREAM specification",
 "After loading a key and IV, the first packet, of any length, is XORed with the HC-128 keystream of the eSTREAM specification (words little-endian), the partial final word included. A decryptor initialised alike stays in step with the encryptor over any sequence of packets (each packet starts the step index again at 0 on the tables left by the one before).",
 ["inputs","histories"],"every key, IV, data, packet length below 2^31-4, every packet sequence",
 "The test only round-trips a fixed message with itself.",
 ["StreamCiphers/HC-128/hc128.cpp","StreamCiphers/HC-128/hc128.h"],[("hc128_initialize, hc128_process_packet, generate_keystream","StreamCiphers/HC-128/hc128.cpp")],[("P, Q","512-word tables","hc128.h")],["hc128_initialize","hc128_process_packet"])
p("C13","Rabbit keystream equals RFC 4503, and IV reloads are independent",
 "After key set-up, and after IV set-up when an IV is loaded, every packet is XORed with the Rabbit keystream of RFC 4503 (octets in the eSTREAM order: key, IV and keystream little-endian), the last partial block using the leading keystream bytes. Loading an IV always yields the same cipher as loading it right after key set-up, whatever was processed before.",
 ["inputs","histories"],"every key, IV, data, packet length below 2^31-16, every earlier use of the cipher",
 "The test round-trips one message; the counter carry chain errs only on particular values, and the reload property needs a history.",
 ["StreamCiphers/Rabbit/rabbit.cpp","StreamCiphers/Rabbit/rabbit.h"],[("rabbit_load_key, rabbit_load_iv, rabbit_process_packet, next state and counter update","StreamCiphers/Rabbit/rabbit.cpp")],[("X, C, carry and their masters","cipher state","rabbit.h")],["rabbit_load_key","rabbit_load_iv","rabbit_process_packet"])
p("C14","Sosemanuk keystream equals the eSTREAM specification",
 "After loading a key and IV, encrypting a packet of any length XORs it with the Sosemanuk keystream of the eSTREAM specification, partial final blocks included. Loading a new IV with the same key restarts the cipher cleanly whatever was processed before.",
 ["inputs","histories"],"every key, IV, data, packet length below 2^31-16, every earlier use",
 "The test only round-trips with itself; any self-consistent keystream passes.",
 ["StreamCiphers/Sosemanuk/sosemanuk.cpp","StreamCiphers/Sosemanuk/serpent.cpp","StreamCiphers/Sosemanuk/sosemanuk_tables.h"],[("sosemanuk_load_key, sosemanuk_load_iv, sosemanuk_process_packet","StreamCiphers/Sosemanuk/sosemanuk.cpp")],[("LFSR and R1, R2","cipher state","sosemanuk.h")],["sosemanuk_process_packet"])
p("C15","Serpent key schedule and block encryption equal the Serpent specification",
 "For every key of at most 256 bits the expanded subkeys, and for every block the encryption result (and the intermediate round outputs used by Sosemanuk), equal those of the Serpent specification in bitslice form. Nothing outside the state and output is written.",
 ["inputs"],"every key length up to 32 bytes, key and plaintext block",
 "No test checks a Serpent vector.",
 ["BlockCiphers/Serpent/serpent.cpp","StreamCiphers/Sosemanuk/serpent.cpp"],[("serpent_key_schedule, serpent_process_packet, serpent1","BlockCiphers/Serpent/serpent.cpp")],(),["serpent_key_schedule","serpent1"])
p("C16","DES block cipher equals FIPS 46-3 and decryption inverts encryption",
 "For every key and block, encryption computes the FIPS 46-3 DES permutation (on the two 32-bit halves of the block), and decryption with the same key is its exact inverse. The key schedule of a loaded key stays valid for any number of blocks in either direction.",
 ["inputs","histories"],"every 64-bit key and block (as two host-order 32-bit words, high half first), any number of blocks",
 "No test compares DES with a vector, and a schedule that ignores subkeys still round-trips in counter mode.",
 ["Legacy/DES/des.cpp","Legacy/DES/des.h"],[("des_key_schedule_encrypt, des_key_schedule_decrypt, des_ecb_block, des_process_packet_ecb","Legacy/DES/des.cpp")],[("round keys","16 48-bit subkeys","des.h")],["des_key_schedule_encrypt","des_key_schedule_decrypt","des_process_packet_ecb"])
p("C17","DES counter mode uses a fresh keystream block per block and inverts",
 "In DES counter mode block number i of the data is XORed with DES of the counter block, the first 64 bits of the nonce (high word first), advanced by i modulo 2^64; so keystream blocks differ from one another, and decryption with the same key and nonce recovers the data at every length that is a multiple of 8 bytes. No byte outside the output of the stated length is written.",
 ["inputs"],"every key, nonce, data and data length that is a multiple of the 8-byte block",
 "The test round-trips one short message, which a constant keystream also passes.",
 ["Legacy/DES/des.cpp"],[("des_process_packet_ctr","Legacy/DES/des.cpp")],(),["des_process_packet_ctr"])
p("C18","Hex encoding is two upper-case digits per byte and decoding inverts it",
 "Encoding n bytes yields exactly 2n upper-case hexadecimal digits, high nibble first, and a terminating NUL. Decoding those digits yields the original bytes, for every byte value and length, and neither writes outside its output.",
 ["inputs"],"every byte string of every length up to 2^30",
 "Only the encoder is used, to print; the decoder is untested.",
 ["Encoders/Hex/encoder.cpp"],[("hex_encode, hex_decode","Encoders/Hex/encoder.cpp")],(),["hex_encode","hex_decode"])
p("C19","Joye-Libert decryption inverts encryption and is additively homomorphic",
 "For every valid key, message in range and encryption randomness coprime to the modulus, decrypting an encryption returns the message. Multiplying two ciphertexts modulo N gives a ciphertext that decrypts to the sum of the messages modulo the message space.",
 ["inputs"],"every key satisfying the scheme's conditions, every message of the message space, all randomness",
 "The test does it for one key and message.",
 ["AsymmetricCryptography/Joye_libert/joye_libert.cpp"],[("joye_libert_encrypt, joye_libert_decrypt","AsymmetricCryptography/Joye_libert/joye_libert.cpp")],(),["joye_libert_encrypt","joye_libert_decrypt"])
p("C20","Labeled homomorphic evaluation decrypts to the evaluated plaintext",
 "Ciphertexts of labeled messages decrypt to those messages; sums, differences, multiplication by a constant, and products of two or three ciphertexts evaluated on ciphertexts decrypt (with the matching function of the label masks) to the same operation on the plaintexts modulo the message space. The label mask is a function of the key state and the label only.",
 ["inputs"],"every valid key, all messages, labels and randomness",
 "The test evaluates one fixed expression for one key.",
 ["AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp"],[("he_encrypt, he_eval_*, he_decrypt","labeled_he.cpp")],(),["he_encrypt","he_decrypt"])
p("C21","Packet functions never touch memory outside their arguments",
 "Every public key-loading, packet-processing, hashing, tagging and encoding function reads only the stated lengths of its inputs and writes only the stated lengths of its outputs and its state, at every packet length, without undefined arithmetic. Inputs declared as such are never modified.",
 ["inputs","histories","configurations"],"every length in the documented range and every content, all build variants",
 "A test notices an overrun only when it crashes; short and odd lengths are not tested at all.",
 ["StreamCiphers","BlockCiphers","Hash","Authentication","Legacy","Encoders"],[("the packet loops and their tail handling","every module")],(),["every public function"])
p("C22","Stream-cipher packets decrypt with an identically keyed receiver, always",
 "For ChaCha, HC-128, Rabbit, Sosemanuk and AES counter mode, the bytes XORed onto a packet and the state left behind depend only on the state before and the packet length, never on the packet's content. Hence two parties with equal state that process packets of the same lengths recover each other's packets exactly, over any packet history.",
 ["inputs","histories"],"every reachable state, every data content and length, every sequence of packets",
 "Tests round-trip one or two packets.",
 ["StreamCiphers/ChaCha/chacha.cpp","StreamCiphers/HC-128/hc128.cpp","StreamCiphers/Rabbit/rabbit.cpp","StreamCiphers/Sosemanuk/sosemanuk.cpp"],[("process_packet functions","each stream cipher")],(),["*_process_packet"])
p("C23","The authenticated-encryption example only decrypts what validates",
 "In the encrypt-then-MAC example the tag covers exactly the transmitted IV and ciphertext, and a message is decrypted only when its tag validates.",
 ["inputs"],"every key, plaintext and received message",
 "The example runs on one constant message.",
 ["Example_AuthenticatedEncryption/example_ae.cpp"],[("main","Example_AuthenticatedEncryption/example_ae.cpp")],(),["main"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
