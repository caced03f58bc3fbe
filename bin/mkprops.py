import json,sys
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,obs=None,hook=None):
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])
    if state: a["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
FB="src/fec_base.h"
codes=["src/fec_rs_fnt.h","src/fec_rs_nf4.h","src/fec_rs_gf2n.h","src/fec_rs_gf2n_fft.h","src/fec_rs_gf2n_fft_add.h","src/fec_rs_gfp_fft.h"]
p("C01","Any n_data surviving fragments restore the original data exactly",
 "For every code the library offers (FNT, NF4, GF(2^n) matrix/FFT/additive-FFT, prime-field FFT; systematic or not where supported) and every accepted shape, word size, packet size, payload and length, encoding the data and decoding from any subset of at least n_data surviving fragments with their stored properties gives back exactly the original bytes. This holds for the streaming and the packet-streaming interfaces (element by element and packet by packet) and the in-memory block interface (from C++ and through the C interface), for every way the caller hands out the surviving fragments and however the input and output streams deliver the bytes (any chunking). It does not depend on which vector instruction set the library was built with.",
 ["inputs","histories","fault_sequences","configurations"],
 "all codes x shapes x word sizes x packet sizes x payloads x loss patterns x chunkings of the I/O streams x build flavours (no SIMD, SSE, AVX)",
 "The unit tests round-trip random data of a fixed length for a handful of shapes with at most a few erasures and whole-buffer string streams; marks (out-of-range symbols), ragged last packets, mixed interfaces and sparse loss patterns are barely touched.",
 [FB,"src/property.h","src/fft_2n.h","src/fft_2n.cpp","src/simd_radix2_fft.h" if False else "src/simd/simd_radix2_fft.h"]+codes,
 [("encode/decode drivers over streams, packets and blocks",FB),("out-of-range symbols carried as properties","src/property.h"),("Vandermonde/Cauchy inverse and Lagrange/FFT interpolation","src/vec_matrix.h, src/fec_context.h")],
 obs=["bytes written to the restored streams/blocks against the original object"])
p("C02","The library writes only the caller's requested bytes and reads only in bounds",
 "Encoding, decoding and reconstructing read only the bytes and write only the bytes that the call hands over: inputs, surviving fragments, unwanted or missing fragments, bytes around a block, and the library's own heap blocks keep their content. This holds through the C++ block interface and the C interface, for every shape, block size, alignment, loss pattern and heap content. A call accepts absent (NULL) pointers wherever the interface says that a fragment is missing or not wanted.",
 ["inputs","histories","configurations"],
 "all shapes, block sizes (ragged and aligned), placements against an unmapped page on either side, loss and wanted patterns, heap fill patterns",
 "The tests use std::vector buffers of exact multiples and never place blocks next to unmapped pages nor look at the bytes around them; sanitizers are not part of the test build.",
 [FB,"src/quadiron_c.cpp","src/vec_buffers.h","src/property.h"]+codes,
 [("block copy-in/copy-out through packet buffers",FB),("wanted and missing flags",FB+", src/quadiron_c.cpp")],
 obs=["guard pages and canaries around every caller block","AddressSanitizer build of the real code"])
p("C03","C interface: any life of fragments keeps them bit-identical to fresh ones",
 "Whatever sequence of encode, decode, loss, node crash and rebuild a set of fragments goes through via the C interface (one instance or several successive ones), every fragment produced or rebuilt is bit-identical, header included, to the one a fresh encode would produce. Any successful decode returns the original data with headers reset to the header of a fragment without marks. Calls succeed exactly when n_data fragments are available and their marks fit the header.",
 ["histories","fault_sequences","inputs"],
 "all histories of put / get / lose / crash / rebuild / restart of the library instance, both code types, all word sizes, unwanted parities, data biased to header-filling marks",
 "The C test encodes once, erases a few fragments and decodes once for few shapes with random data, in which marks hardly ever occur; chained rebuilds and header contents are not compared.",
 ["src/quadiron_c.cpp","src/property.h",FB,"src/fec_rs_fnt.h"],
 [("in-place encode/decode of caller blocks","src/quadiron_c.cpp"),("header with magic, count and big-endian offsets","src/property.h fnt_serialize/fnt_deserialize")],
 obs=["fragment bytes after each C call against an executable reference code"])
p("C04","C interface: damaged headers are refused or harmless, never a memory error",
 "An encoded fragment (one that carries marks: a parity fragment, or any fragment of a non-systematic code) whose header is malformed (wrong magic or a count larger than the header holds) makes decode and rebuild of that fragment set fail with -1. The header of a data fragment of a systematic code holds nothing that is read: decode resets it. Any header content at all, torn, flipped, swapped with another fragment's or arbitrary, makes the call return normally with no out-of-bounds access. When it succeeds, every word for which the marks of the used fragments are unchanged is restored correctly.",
 ["fault_sequences","inputs"],
 "all corruptions of the header dwords (bit flips, set values including near-overflow counts, torn headers, headers swapped between fragments and objects), any number of fragments, decode and rebuild",
 "No test feeds a damaged header.",
 ["src/property.h","src/quadiron_c.cpp",FB,"src/fec_rs_fnt.h"],
 [("magic and count validation","src/property.h fnt_deserialize"),("marks applied only inside the packet","src/fec_rs_fnt.h, src/property.h in_range")],
 obs=["return code, guard pages, restored words"])
p("C05","Too few fragments: refusal, and nothing of the output is touched",
 "When fewer than n_data usable fragments are handed to a decode or rebuild, the call reports failure. It neither crashes nor reads the missing fragments, and outputs and surviving fragments are left as they were. The instance stays usable: a later call with enough fragments succeeds with the right data.",
 ["inputs","histories"],
 "all codes, interfaces, shapes and patterns leaving 0..n_data-1 fragments, at any point of an instance's history",
 "Tests only decode with exactly enough fragments.",
 [FB,"src/quadiron_c.cpp"],
 [("fragment counting before any transform",FB)],
 obs=["return value, output streams/blocks, following operations"])
p("C06","Stream faults during encode or decode stay contained",
 "A stream that ends early, fails, throws, stalls or refuses writes during an encode or decode ends in a normal return, a failure status or an exception: never a crash, a hang or wrong bytes for fragments and packets not affected by the fault. Outputs delivered before the fault position are exactly those of a fault-free run. After the fault the same instance gives correct results again.",
 ["fault_sequences","histories","inputs"],
 "all codes and stream interfaces x fault kind (EOF, read error, write error, exception, short reads, stall) x position x stream",
 "Tests use in-memory string streams that never fail.",
 [FB],
 [("per-word/per-packet stream reads and writes with status",FB+" readw/writew, read_pkt/write_pkt, encode_*/decode_*")],
 obs=["delivered prefix of every output stream; following operations on the same instance"])
p("C07","Results do not depend on what the instance did before",
 "An operation on an instance that has already encoded, decoded, failed or been interrupted any number of times (other objects, lengths, loss patterns, interfaces) gives exactly the bytes, properties and status that a freshly created instance gives for the same operation. Nothing of an earlier object leaks into a later result.",
 ["histories","inputs"],
 "all sequences of operations with different objects, loss patterns, interfaces and faults on one instance",
 "Tests create an instance, use it for one round trip and drop it.",
 [FB,"src/fec_context.h","src/fec_rs_fnt.h","src/fec_rs_nf4.h"],
 [("decode contexts and scratch buffers rebuilt or cleared per operation",FB+", src/fec_context.h")],
 obs=["each operation against the reference model and against a fresh instance"])
p("C08","Separate instances are independent when used from several threads",
 "Threads that each use their own code instances (creating, encoding, decoding, destroying) at the same time each get exactly the bytes, properties and statuses they get when running alone, for every interleaving. No interleaving crashes or hangs.",
 ["schedules","inputs"],
 "all interleavings of 2-4 tasks at basic-block granularity of the library code, each with own instances of equal or different codes",
 "No test uses threads.",
 [FB,"src/core.h","src/gf_ring.h","src/gf_prime.h","src/misc.cpp","src/arith.h","src/simd/simd.h"],
 [("instances own their fields, transforms and buffers; only the random generator is shared","src/core.h, src/misc.cpp")],
 obs=["per-task results against the same task run alone"])
p("C09","Fragments are a pure function of the data and the code parameters",
 "Encoding the same data with the same code parameters always yields the same fragments and properties: independent of interface (word streams, packet streams, blocks, C), vector instruction set, wanted subset, heap content, random generator state, chunking and time. They equal those of an independent reference implementation of the code.",
 ["inputs","histories","configurations"],
 "all codes, shapes, payloads, interfaces, packet sizes, build flavours, heap fills",
 "Tests compare a round trip with itself, not fragments with fixed expectations; fragments written by one version or build must be readable by another.",
 [FB,"src/gf_ring.h","src/arith.h","src/fft_2n.h","src/simd/simd_radix2_fft.h"]+codes,
 [("fixed primitive roots and generator matrices","src/gf_ring.h, src/gf_prime.h, src/vec_matrix.h")],
 obs=["bytes and properties of every fragment against the executable reference model"])
p("C10","Allocation failure at any point is reported and leaves nothing behind",
 "If memory runs out at any allocation while an instance is created, used or destroyed, the caller sees an error (an exception from the C++ interface, NULL or -1 from the C interface), never a crash, a hang or a wrong result reported as success. Once memory is available again the surviving instance works correctly. Nothing allocated by the failed call leaks.",
 ["fault_sequences","inputs"],
 "the n-th allocation fails (one, several or all that follow), for every n, in construction, encode, decode, rebuild and destruction, all codes",
 "No test injects allocation failures.",
 ["src/vec_buffers.h","src/vec_vector.h","src/vec_matrix.h","src/gf_bin_ext.h","src/fft_ct.h","src/fft_gt.h",FB,"src/quadiron_c.cpp","src/simd/allocator.h"],
 [("ownership through containers and smart pointers","src/*.h"),("C boundary","src/quadiron_c.cpp")],
 obs=["outcome of the call, live library allocations, following operations"])
p("C11","Clock steps never change results, and the statistics stay truthful",
 "Clock jumps, forwards or backwards, at any clock reading leave all bytes, properties and statuses unchanged. While the clock does not go backwards, the encode (or decode) statistics after an operation describe that operation: the operation count is the number of packets or words it transformed and the time is at least the time those transforms took and at most the time the call took. The statistics of the other direction keep describing its own last operation.",
 ["schedules","fault_sequences","histories"],
 "all sequences of clock advances and steps at the clock readings of all stream and block operations",
 "Tests never look at the statistics and cannot step the clock.",
 [FB],
 [("gettimeofday around each transform",FB+" hrtime_usec, total_enc_usec, total_dec_usec")],
 state=[("total_enc_usec/total_dec_usec","time spent in encode/decode",FB)],
 obs=["statistics counters after each operation under a simulated clock"])
p("C12","Stored properties survive a save/load and a torn file never invents marks",
 "Properties written to a text stream or to a binary header and read back are the same marks in the same order, and decoding with them restores the data exactly. Loading a file that is truncated at any byte, or short-read, is either refused or yields marks that are a prefix of those saved, apart from a last line whose number was cut; it never crashes or hangs. Blank lines, comments and lines without key or separator never produce a mark.",
 ["inputs","crash_points","fault_sequences"],
 "all mark sets, truncation points, chunkings and damaged lines",
 "No test covers the text form; the binary form is only covered through the C test.",
 ["src/property.cpp","src/property.h"],
 [("text form location=marker per line","src/property.cpp"),("binary form","src/property.h")],
 obs=["loaded marks against saved ones; restored data"])
p("C13","The on-disk table cache never yields wrong values",
 "Tables of powers obtained through the on-disk cache are the same as computed ones, whatever is on the disk: no file, a file from an earlier run, a file cut by a crash at any byte, a file for other parameters, or a damaged one, and when the disk is full or not writable. It never writes outside the table nor crashes.",
 ["crash_points","fault_sequences","histories"],
 "all sequences of cached computations over ring sizes, interleaved with crashes, torn, foreign and damaged files and failing disks",
 "No test touches the cache.",
 ["src/gf_ring.h"],
 [("read table if the file exists, else compute and write","src/gf_ring.h compute_omegas_cached")],
 obs=["table values against powers computed independently"],hook=None)
p("C14","Repair regenerates exactly the lost fragments",
 "Rebuilding any lost fragment from any n_data others and encoding again gives fragments bit-identical to the lost ones, properties included, after any number of loss-and-repair rounds. A repaired set restores the data exactly as the original set does.",
 ["histories","fault_sequences"],
 "all codes and interfaces, any sequence of losses (crashes) and repairs, any choice of survivors",
 "Tests do at most one decode after one encode and never re-encode from restored data.",
 [FB]+codes,
 [("decode then encode through the same code",FB)],
 obs=["fragments after each repair against the reference model"])
p("C15","Streaming memory does not grow with the length of the stream",
 "Encoding or decoding a stream needs working memory that depends on the code and packet size only: the peak heap use for a stream many times longer is the same, apart from what the properties of its out-of-range symbols need. After an operation the instance holds no more memory than after the first one of its kind, and a destroyed instance holds none.",
 ["inputs","histories"],
 "all codes and stream interfaces, stream lengths growing geometrically, arbitrarily many operations per instance",
 "Tests do not measure memory.",
 [FB,"src/vec_buffers.h"],
 [("fixed packet buffers reused for each packet",FB)],
 obs=["heap peak and live bytes at the allocator seam"])
p("C16","Every transform is inverted by its inverse transform",
 "For every supported transform size and field, the inverse transform of the transform of any vector is that vector.",
 ["inputs"],"all transform kinds, sizes, fields, vectors","Tests sample random vectors at a few sizes.",
 ["src/fft_base.h","src/fft_2n.h","src/fft_ct.h","src/fft_gt.h","src/fft_add.h","src/fft_naive.h"],[("fft/ifft pairs","src/fft_*.h")])
p("C17","Field and ring operations satisfy their axioms",
 "In every supported ring and field, addition, multiplication, inversion, exponentiation, logarithm and roots of unity satisfy the algebraic laws for all elements.",
 ["inputs"],"all fields and all elements","Tests sample random elements.",
 ["src/gf_ring.h","src/gf_prime.h","src/gf_bin_ext.h","src/gf_nf4.h","src/arith.h"],[("modular arithmetic","src/gf_*.h")])
p("C18","Polynomial interpolation reproduces the polynomial",
 "Interpolating a polynomial from its values at distinct points gives back the polynomial, for all points and values.",
 ["inputs"],"all fields, point sets, polynomials","Tests sample a few.",
 ["src/vec_poly.h","src/fec_context.h"],[("Lagrange interpolation","src/vec_poly.h")])
sel=set(sys.argv[1].split(',')) if len(sys.argv)>1 else None
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        if sel is None or x["id"] in sel: f.write(json.dumps(x)+"\n")
