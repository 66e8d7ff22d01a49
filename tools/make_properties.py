import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
T="The tests use three control words, one size class (at most 184 bytes) and compare the library mostly with itself; "
p("C01","Single-packet encryption is DVB-CSA",
 "Encrypting a payload with a key context replaces it by exactly the DVB Common Scrambling Algorithm scrambling of that payload under the context's control word. This holds for every control word, every payload content and every payload length, including lengths above 184 bytes.",
 ["inputs","configurations"],"all 2^64 control words, all payload contents, all lengths 0..2^32-1, every build configuration",
 T+"two fixed 184-byte vectors are the only ones compared with independently known ciphertext.",
 ["src/dvbcsa_algo.c","src/dvbcsa_block.c","src/dvbcsa_stream.c","src/dvbcsa_key.c","src/dvbcsa_pv.h"],
 [("dvbcsa_encrypt: reverse CBC over whole blocks, then keystream from byte 8","src/dvbcsa_algo.c"),("dvbcsa_block_encrypt, dvbcsa_stream_xor","src/dvbcsa_block.c, src/dvbcsa_stream.c")],
 [("sch, cws","round keys and nibble-swapped control word derived from the control word","struct dvbcsa_key_s in src/dvbcsa_pv.h")],["return of dvbcsa_encrypt: payload bytes"])
p("C02","Single-packet decryption is DVB-CSA",
 "Decrypting a payload with a key context replaces it by exactly the DVB Common Scrambling Algorithm descrambling of that payload under the context's control word. This holds for every control word, every payload content and every payload length, including lengths above 184 bytes.",
 ["inputs","configurations"],"all control words, payload contents and lengths, every build configuration",
 T+"decryption is compared with known plaintext for two packets only.",
 ["src/dvbcsa_algo.c","src/dvbcsa_block.c","src/dvbcsa_stream.c","src/dvbcsa_key.c","src/dvbcsa_pv.h"],
 [("dvbcsa_decrypt: keystream from byte 8, then the block chain forwards","src/dvbcsa_algo.c"),("dvbcsa_block_decrypt, dvbcsa_stream_xor","src/dvbcsa_block.c, src/dvbcsa_stream.c")],
 [("sch, cws","round keys and nibble-swapped control word derived from the control word","struct dvbcsa_key_s in src/dvbcsa_pv.h")],["return of dvbcsa_decrypt: payload bytes"])
p("C03","Decryption and encryption invert each other",
 "Under the same control word, decrypting an encrypted payload and encrypting a decrypted payload both give back the original bytes, for every payload and length. It does not matter which of the two interfaces (single packet or batch) did either half.",
 ["inputs","programs","configurations"],"all control words, payloads and lengths; all four pairings of single and batch operations, in both orders; every build configuration",
 "The round trip in the batch test uses full batches of random packets for three control words; decrypt-then-encrypt and mixed interfaces are never tried.",
 ["src/dvbcsa_algo.c","src/dvbcsa_bs_algo.c","src/dvbcsa_bs_block.c","src/dvbcsa_block.c","src/dvbcsa_bs_transpose_block.c"],
 [("the chain of dvbcsa_decrypt undoes the chain of dvbcsa_encrypt","src/dvbcsa_algo.c"),("order of stream and block passes in dvbcsa_bs_encrypt and dvbcsa_bs_decrypt","src/dvbcsa_bs_algo.c")],
 [],["payload bytes after each operation of a pair"])
p("C04","A batch does to each packet what the single-packet call does",
 "Processing a batch gives every packet in it exactly the bytes that the single-packet operation with the same control word gives that packet alone. This holds for every number of packets up to the batch size and every mix of lengths and contents, in every word-size implementation.",
 ["inputs","configurations"],"all batch compositions (count 1..batch size, lengths 0..184 in any mix, any content), both directions, every build configuration",
 "The batch test only fills complete batches, with lengths drawn from a few ranges and three control words.",
 ["src/dvbcsa_bs_algo.c","src/dvbcsa_bs_block.c","src/dvbcsa_bs_stream.c","src/dvbcsa_bs_stream_kernel.inc","src/dvbcsa_bs_transpose_block.c","src/dvbcsa_bs_transpose_stream.c","src/dvbcsa_bs_transpose_stream32.c","src/dvbcsa_bs_key.c"],
 [("dvbcsa_bs_encrypt, dvbcsa_bs_decrypt: load, bit-sliced stream and block passes, store","src/dvbcsa_bs_algo.c"),("per-packet len8 guards the chain XOR","src/dvbcsa_bs_transpose_block.c")],
 [("pkt_buf","slots the packets are copied to","struct dvbcsa_bs_pkt_buf in src/dvbcsa_bs.h")],["return of the batch call: all packets"])
p("C05","Packets of a batch do not influence one another",
 "The result for a packet in a batch depends only on its own bytes, its own length, the control word and the processing limit. Its position, the number, lengths and contents of the other packets, and any reordering of the batch make no difference.",
 ["inputs","configurations"],"all pairs of batches sharing a packet: any slot, any neighbours, any count",
 "No test compares the same packet in two different batches; partial batches, duplicates and reorderings never occur.",
 ["src/dvbcsa_bs_algo.c","src/dvbcsa_bs_transpose_block.c","src/dvbcsa_bs_transpose_stream.c","src/dvbcsa_bs_transpose_stream32.c","src/dvbcsa_bs_stream.c"],
 [("each packet owns a fixed slot and one bit lane","src/dvbcsa_bs_algo.c, src/dvbcsa_bs_transpose_*.c"),("unrolled loops over n_packets with remainder loops","src/dvbcsa_bs_transpose_block.c")],
 [("n_packets, len8","packets in the batch and their whole-block lengths","struct dvbcsa_bs_pkt_buf in src/dvbcsa_bs.h")],["payload bytes of the shared packet in both batches"])
p("C06","The batch length limit bounds what is processed, and only that",
 "In a batch with limit maxlen, a packet not longer than maxlen is processed completely, whatever multiple of 8 up to 184 maxlen is. Of a longer packet exactly the first maxlen bytes are processed, as a packet of that length, and the rest is left as it was; this includes packets longer than 184 bytes.",
 ["inputs","configurations"],"all limits 0,8,..,184, all packet lengths (below, at and above the limit, and above 184), both directions",
 "Every test passes 184 as limit and no packet is longer than it.",
 ["src/dvbcsa_bs_algo.c","src/dvbcsa_bs_block.c","src/dvbcsa_bs_stream.c","src/dvbcsa_bs_transpose_block.c"],
 [("dvbcsa_pkt_buf_len clips the copied and the processed length","src/dvbcsa_bs_algo.c"),("loops of the block and stream passes up to maxlen","src/dvbcsa_bs_block.c, src/dvbcsa_bs_stream.c")],
 [("len8, maxlen","processed whole-block length of each packet, limit of the call","struct dvbcsa_bs_pkt_buf in src/dvbcsa_bs.h")],["return of the batch call: packets with limits smaller than their length"])
p("C07","Short payloads pass unchanged; a trailing residue is only masked",
 "A payload of fewer than 8 bytes is left unchanged by every operation of both interfaces. In a longer payload whose length is not a multiple of 8 the trailing residue is only XORed with the keystream at its position: it does not affect how the whole blocks before it are processed, and flipping residue bits flips the same bits of the result.",
 ["inputs","configurations"],"all lengths, in particular 0..7 and every residue 1..7 after any number of blocks; any residue content; both interfaces and directions",
 "Lengths with residues are only compared between the two interfaces, for a handful of random packets; lengths below 8 only occur inside full batches.",
 ["src/dvbcsa_algo.c","src/dvbcsa_bs_algo.c","src/dvbcsa_bs_transpose_block.c"],
 [("early return for len < 8, alen = len & ~7","src/dvbcsa_algo.c"),("len8 = len & ~7 and its guards","src/dvbcsa_bs_algo.c, src/dvbcsa_bs_transpose_block.c")],
 [],["payload bytes"])
p("C08","Only the payload bytes given are read or written",
 "An operation writes no byte outside the payloads it was given (for a batch: of the packets before the terminating entry), and reads nothing outside the payloads, the descriptor array up to its terminator, the key context and the control word. The control word, the key context and the descriptors are not modified by processing, and setting a key modifies nothing outside its context.",
 ["inputs","configurations"],"all payload placements, lengths, batch compositions and limits; memory on both sides of every argument inaccessible",
 "Test buffers have slack around them and nothing checks it; batches are complete and all arrays are followed by mapped memory.",
 ["src/dvbcsa_algo.c","src/dvbcsa_bs_algo.c","src/dvbcsa_key.c","src/dvbcsa_bs_key.c","src/dvbcsa_stream.c","src/dvbcsa_pv.h"],
 [("copies to and from the packet slots bounded by the packet length","src/dvbcsa_bs_algo.c"),("unaligned loads and stores through memcpy of exact size","src/dvbcsa_pv.h")],
 [],["accessible memory around payloads, descriptors, control word and key contexts"])
p("C09","A key context uses its last control word, whatever happened before",
 "An operation with a key context always uses the control word most recently set in that context, in full, and no trace of earlier control words or of earlier processing remains. Setting copies the control word: the caller may change or reuse its memory at once, and setting the same word again changes nothing.",
 ["histories","configurations"],"all histories of setting keys and processing on a context, including setting the same word from different memory and different words from the same memory, and freeing and reallocating contexts",
 "Each test sets a key once per context, uses it with one kind of operation and frees it.",
 ["src/dvbcsa_key.c","src/dvbcsa_bs_key.c","src/dvbcsa_algo.c","src/dvbcsa_bs_algo.c"],
 [("dvbcsa_key_set and dvbcsa_bs_key_set overwrite the whole context","src/dvbcsa_key.c, src/dvbcsa_bs_key.c"),("const key argument of all operations","src/dvbcsa/dvbcsa.h")],
 [("key context","material derived from the last control word","struct dvbcsa_key_s, struct dvbcsa_bs_key_s")],["payload bytes after each operation of a history"])
p("C10","Key contexts are independent of one another",
 "Any number of key contexts of both kinds can coexist, and allocating, setting, using or freeing one never changes what operations with another one do. The outcome of an operation is determined by its own context's control word and its payload alone, not by operations made with other contexts in between.",
 ["histories","configurations"],"all interleavings of allocate, set, process and free over several contexts of both kinds, e.g. odd and even control words used alternately",
 "No test has more than one context of a kind alive, nor alternates between control words.",
 ["src/dvbcsa_key.c","src/dvbcsa_bs_key.c","src/dvbcsa_algo.c","src/dvbcsa_bs_algo.c","src/dvbcsa_stream.c","src/dvbcsa_bs_stream.c"],
 [("all key-dependent state lives in the context; tables are constant","src/dvbcsa_pv.h, src/dvbcsa_bs.h")],
 [("key context","material derived from one control word","struct dvbcsa_key_s, struct dvbcsa_bs_key_s")],["payload bytes after each operation"])
p("C11","Concurrent calls give the same results as sequential ones",
 "Threads may process different payloads at the same time, sharing key contexts that are not being changed or using their own, and may create, set and free different contexts at the same time. Every call then has the result it would have had alone, whatever the interleaving, including the first calls made in the process.",
 ["schedules"],"all interleavings of concurrent key creation, key set, encrypt, decrypt and batch calls on disjoint payloads and shared read-only or distinct contexts",
 "All tests are single-threaded.",
 ["src/dvbcsa_algo.c","src/dvbcsa_stream.c","src/dvbcsa_block.c","src/dvbcsa_key.c","src/dvbcsa_bs_algo.c","src/dvbcsa_bs_stream.c","src/dvbcsa_bs_block.c","src/dvbcsa_bs_key.c"],
 [("no writable static data; working state on the stack","src/*.c"),("const key contexts in all operations","src/dvbcsa/dvbcsa.h")],
 [],["payload bytes of every thread after joining, under forced schedules"])
p("C12","Allocating key contexts is safe, also when memory runs out",
 "Allocating a key context returns either NULL, when memory cannot be had, or a context that is distinct from all live ones and usable at once wherever the system's allocator placed it. A failed allocation leaves nothing allocated and does not affect live contexts, and freeing a context returns all memory its allocation took, exactly once.",
 ["fault_sequences","histories","configurations"],"all sequences of allocate, set, use and free with any allocation of the C library failing, and any legal placement of allocated memory",
 "No test makes an allocation fail, frees contexts out of order, or controls where the allocator places them.",
 ["src/dvbcsa_algo.c","src/dvbcsa_bs_algo.c","src/dvbcsa_bs.h"],
 [("dvbcsa_key_alloc, dvbcsa_key_free: malloc and free","src/dvbcsa_algo.c"),("dvbcsa_bs_key_alloc, dvbcsa_bs_key_free: allocation aligned to the vector word","src/dvbcsa_bs_algo.c")],
 [("key context","allocated memory with the alignment of the vector word","struct dvbcsa_bs_key_s in src/dvbcsa_bs.h")],["results of the allocator calls, pointers returned, blocks outstanding"])
p("C13","All build configurations compute the same results",
 "For the same sequence of calls on the same data, every build configuration - word size, SIMD instruction set, alternative S-box implementation, byte order of the machine - leaves the same bytes in all payloads. Only the batch size differs between them.",
 ["configurations","inputs"],"all configurations that can be built and run here (uint32, uint64, MMX, SSE2, SSSE3, AVX2, NEON; with and without the alternative S-box; little and big endian), all inputs",
 "Each configuration's tests compare it with itself on its own random data; results are never compared across configurations (one configuration fails its batch tests).",
 ["src/dvbcsa_bs_uint32.h","src/dvbcsa_bs_uint64.h","src/dvbcsa_bs_mmx.h","src/dvbcsa_bs_sse.h","src/dvbcsa_bs_avx2.h","src/dvbcsa_bs_neon.h","src/dvbcsa_bs_block.c","src/dvbcsa_bs_transpose.h","src/dvbcsa_pv.h"],
 [("BS_* word operations of each target","src/dvbcsa_bs_*.h"),("DVBCSA_ENDIAN_*, DVBCSA_USE_ALT_SBOX alternatives","src/dvbcsa_pv.h, src/dvbcsa_bs_block.c, src/dvbcsa_block.c")],
 [],["payload bytes of the same calls in every configuration"])
p("C14","Every bit of the control word is used as given",
 "Both interfaces take the eight control word bytes exactly as given: no bit is ignored, masked, corrected (there is no checksum fix-up) or given a special meaning, so control words differing in any bit are different keys with the results DVB-CSA defines for each. This includes degenerate words such as all zeros and words whose checksum bytes are wrong.",
 ["inputs","configurations"],"all 2^64 control words; every single-bit difference; every value of every byte position",
 "Three control words are tested.",
 ["src/dvbcsa_key.c","src/dvbcsa_bs_key.c"],
 [("dvbcsa_key_schedule_block: permutation tables for each byte of the key","src/dvbcsa_key.c"),("nibble-swapped stream key; key bits spread over vector words","src/dvbcsa_key.c, src/dvbcsa_bs_key.c")],
 [("kperm","bit permutation of the key, one table per byte","src/dvbcsa_key.c")],["payload bytes after processing with the key"])
p("C15","An illegal batch length limit is refused before payloads are touched",
 "A batch call whose length limit is not a multiple of 8 or is greater than 184 does not process anything: it is refused before any payload byte changes. Every legal limit is accepted.",
 ["inputs","configurations"],"all limits 0..2^32-1, both directions, any batch",
 "The tests only pass 184.",
 ["src/dvbcsa_bs_algo.c","src/dvbcsa/dvbcsa.h"],
 [("assertions on maxlen at the start of both batch calls","src/dvbcsa_bs_algo.c")],
 [],["termination of the call (abort) and payload bytes after it"])
p("C16","Processing and key setup are self-contained and cannot fail",
 "Setting keys and processing payloads succeed even when no memory can be allocated, retain no memory, and print nothing. They leave the caller's floating-point environment as it was and ready for use (including after the MMX implementation), so the caller can go on computing.",
 ["fault_sequences","histories","configurations"],"all operations with all allocations failing, any payload, any floating-point environment of the caller (rounding mode, exception masks)",
 "No test fails allocations or uses floating point after a call.",
 ["src/dvbcsa_bs_algo.c","src/dvbcsa_bs_mmx.h","src/dvbcsa_algo.c","src/dvbcsa_key.c","src/dvbcsa_bs_key.c"],
 [("BS_EMPTY restores the multimedia state","src/dvbcsa_bs_algo.c, src/dvbcsa_bs_mmx.h"),("working state on the stack","src/*.c")],
 [],["allocator calls, standard output and error, floating-point status, control word and results after each call"])
p("C17","Results do not depend on where data lies in memory",
 "Payloads, control words and descriptor arrays may lie at any address: any alignment, any distance from each other including directly adjacent payloads, and any page offset. The bytes an operation produces are the same wherever its arguments are.",
 ["inputs","configurations"],"all address alignments of payloads and control words, adjacent payloads in any order, page-crossing payloads",
 "The tests use arrays the compiler aligned, all of the same layout.",
 ["src/dvbcsa_pv.h","src/dvbcsa_bs_algo.c","src/dvbcsa_block.c","src/dvbcsa_bs_key.c"],
 [("dvbcsa_xor_64 and load/store helpers use memcpy","src/dvbcsa_pv.h"),("packets are copied to aligned slots","src/dvbcsa_bs_algo.c")],
 [],["payload bytes for the same call at different addresses"])
p("C18","Batches of any size up to the advertised one work; the terminator ends them",
 "The advertised batch size is a positive constant of the build, and batches of every size from none to exactly that many packets are processed. Processing stops at the first entry with a NULL pointer: neither it nor entries after it are acted on, and a batch that starts with it does nothing.",
 ["inputs","configurations"],"all counts 0..batch size with any contents after the terminator",
 "The tests only use full batches ended by a terminator followed by nothing.",
 ["src/dvbcsa_bs_algo.c","src/dvbcsa_bs.h","src/dvbcsa_bs_transpose_block.c","src/dvbcsa_bs_transpose_stream.c","src/dvbcsa_bs_transpose_stream32.c"],
 [("loops up to the NULL data pointer","src/dvbcsa_bs_algo.c"),("BS_BATCH_SIZE","src/dvbcsa_bs_*.h")],
 [("n_packets","packets before the terminator","struct dvbcsa_bs_pkt_buf in src/dvbcsa_bs.h")],["value of dvbcsa_bs_batch_size, payload bytes of entries before and after the terminator"])
p("C19","Transmission errors stay local in a packet",
 "When bits of a scrambled payload are damaged anywhere after its first 8 bytes, descrambling damages only the block hit and the block before it, and in the block before exactly the same bits; damage to a trailing residue stays where it is. Conversely, changing a plaintext block never changes the scrambled blocks after it beyond the keystream that the first block determines. Both interfaces agree on this.",
 ["inputs","configurations"],"all payloads of any number of blocks, all positions and patterns of damage, both interfaces",
 "No test descrambles a damaged packet.",
 ["src/dvbcsa_algo.c","src/dvbcsa_bs_transpose_block.c","src/dvbcsa_bs_block.c","src/dvbcsa_stream.c"],
 [("reverse CBC chaining with the first scrambled block as keystream seed","src/dvbcsa_algo.c, src/dvbcsa_bs_transpose_block.c")],
 [],["pairs of payload results"])
p("C20","Operations need little stack and work in proportion to their payload",
 "The stack an operation needs is small (well under 256 KiB) and depends neither on the payload's length or contents, nor on the batch, nor on what happened before. A single-packet operation does work at most in proportion to the payload's length; a batch operation's work is bounded by the limit and the number of packets, whatever lengths the descriptors give; setting a key takes bounded work whatever the control word, and none of it grows with the number of contexts in existence or operations made.",
 ["inputs","histories","configurations"],"all payload lengths, placements and contents, batches, limits and descriptor lengths up to the largest, all control words, any number of contexts and earlier operations",
 "No test measures stack or work, and all payloads are at most 184 bytes.",
 ["src/dvbcsa_algo.c","src/dvbcsa_stream.c","src/dvbcsa_bs_algo.c","src/dvbcsa_bs_block.c","src/dvbcsa_bs_stream.c","src/dvbcsa_key.c","src/dvbcsa_bs_key.c"],
 [("working state in fixed-size locals, one pass per block","src/dvbcsa_algo.c, src/dvbcsa_stream.c"),("fixed matrices on the stack, passes up to the limit, clipping of descriptor lengths","src/dvbcsa_bs_algo.c, src/dvbcsa_bs_block.c, src/dvbcsa_bs_stream.c")],
 [],["pages of a thread's stack touched by a call, basic blocks executed by a call"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P), max(len(x['title']) for x in P))
