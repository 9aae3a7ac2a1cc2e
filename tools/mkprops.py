#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the long text stays readable).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    P.append(d)
GO=["sha1cd.go","sha1cdblock_generic.go","sha1cdblock_amd64.go","sha1cdblock_arm64.go","sha1cdblock_noasm.go","internal/const.go"]
ST=[("chaining value","five 32-bit words after the whole blocks absorbed so far","sha1cd.go: digest.h"),
    ("tail buffer","bytes of the last incomplete block","sha1cd.go: digest.x, digest.nx"),
    ("length","total bytes written, modulo 2^64","sha1cd.go: digest.len"),
    ("verdict","whether any absorbed block was flagged","sha1cd.go: digest.col")]
p("C01","The digest is SHA-1 whenever no attack is flagged",
  "For every message, when the reported collision verdict is false, the 20-byte digest equals the FIPS 180-4 SHA-1 digest of that message. This holds for the one-shot function and for streaming hashers, and on every build of the pure Go package (amd64, arm64 and other architectures, with and without assembly).",
  ["inputs","configurations"],"all messages of any length below 2^61 bytes, all builds of the Go package",
  "The tests compare about thirty short golden strings and five files; the compression function has 2^672 inputs per block, and bugs that need a particular carry, length or buffer fill are not sampled.",
  GO+["sha1cdblock_amd64.s","sha1cdblock_arm64.s"],
  [("block compression","sha1cdblock_generic.go: blockGeneric"),("padding and output","sha1cd.go: checkSum"),("buffering","sha1cd.go: Write"),("dispatch","sha1cdblock_{amd64,arm64,noasm}.go: block")],
  ["Sum","New().Write/Sum"],ST)
p("C02","Flagged blocks are hashed three times (safe hash)",
  "For every message and every block of its padded form, the chaining value that follows a flagged block is the result of compressing that block three times in a row starting from the value before it, and the value that follows an unflagged block is the result of compressing it once. The digest of a flagged message is therefore the collision-safe 240-step value, the same on every build of the package.",
  ["inputs","configurations"],"all chaining values and all 64-byte blocks, in the portable code and in both native block loops",
  "Only four attack files exist to exercise the flagged path; every other position, count and chaining value is unsampled.",
  GO,[("re-hash of a flagged block","sha1cdblock_generic.go: blockGeneric (rehash)"),("native re-hash","sha1cdblock_amd64.go, sha1cdblock_arm64.go: block")],
  ["Sum","CollisionResistantSum"],ST)
p("C03","A block is flagged exactly when recompression collides",
  "A message block is flagged if and only if, for at least one of the 32 listed disturbance vectors whose unavoidable bit conditions the expanded block satisfies, undoing and redoing the compression from that vector's test step with the block's expanded words XORed with the vector's message difference reproduces the block's output chaining value (all five words). No other block is flagged and none of the listed vectors is skipped.",
  ["inputs"],"all expanded blocks, all intermediate states at the test steps, all output chaining values, every listed vector",
  "The known attack files exercise two of the 32 vectors; the others need about 2^60 work to reach through a real message, so no test can.",
  ["sha1cdblock_generic.go","sha1cdblock_amd64.go","sha1cdblock_arm64.go","ubc/ubc.go","ubc/const.go"],
  [("detection loop","sha1cdblock_generic.go: checkCollision"),("recompression","sha1cdblock_generic.go: hasCollided"),("stored states","sha1cdblock_generic.go: blockGeneric, rectifyCompressionState"),("mask","ubc/ubc.go: CalculateDvMask")],
  ["CollisionResistantSum"])
p("C04","The verdict is the OR over all blocks, never lost or invented",
  "The collision verdict reported for a hasher is true exactly when at least one block of the padded message written since creation or the last reset was flagged. Later data, further reads of the digest and the position of the flagged block (first, middle, last, or the padding block) never clear or set it, and the one-shot function and the streaming interface report the same verdict.",
  ["inputs","histories"],"all messages and all operation histories of a hasher",
  "The tests look at the verdict after one write of five files; they never continue writing after a detection, read it twice, or flag a block other than an early whole block.",
  GO,[("sticky flag","sha1cdblock_generic.go: blockGeneric, sha1cdblock_*.go: block"),("reporting","sha1cd.go: CollisionResistantSum, Sum")],
  ["Sum","CollisionResistantSum"],ST)
p("C05","Only the concatenation of the writes matters",
  "For every way of splitting a byte string into successive writes, including empty writes, the hasher reaches the same observable state (digest, verdict, saved state). Every write reports the full length written and no error.",
  ["inputs","histories"],"all states of the tail buffer, all write lengths and contents",
  "The tests split a few short strings once in half; the buffer has 64 fill levels times unbounded write lengths.",
  ["sha1cd.go"]+GO[1:],[("tail buffer management","sha1cd.go: Write")],["Write","Sum"],ST)
p("C06","Reading the digest is a pure observation",
  "Obtaining the digest or the verdict returns the caller's slice extended by exactly the 20 digest bytes in big-endian word order, leaves the caller's existing bytes unchanged, and does not change the hasher: every later write, digest, verdict or saved state is what it would have been without the read.",
  ["inputs","histories"],"all hasher states and all argument slices (nil, with or without spare capacity)",
  "The tests read in the middle of a message once for 32 strings, always with a nil slice.",
  ["sha1cd.go"],[("copy of the state before padding","sha1cd.go: Sum, CollisionResistantSum"),("finalisation","sha1cd.go: checkSum")],["Sum","CollisionResistantSum"],ST)
p("C07","Reset restores the state of a new hasher",
  "After a reset a hasher is indistinguishable from a newly created one, whatever was written, flagged, read or restored before: same digests, same verdicts, same saved states for every continuation.",
  ["histories","inputs"],"all hasher states before the reset and all continuations",
  "The tests reset hashers that have seen the same small inputs and do not check that a verdict is cleared.",
  ["sha1cd.go","internal/const.go"],[("initialisation","sha1cd.go: Reset, New")],["Reset","New"],ST)
p("C08","Saving and restoring the state loses nothing",
  "For every hasher state, saving it and restoring it into any other hasher (fresh or already used) makes the two indistinguishable: every continuation gives the same digest, the same collision verdict and the same saved state. Saving does not change the hasher.",
  ["inputs","histories"],"all hasher states, all previous states of the receiving hasher, all continuations",
  "The tests save states of 32 short messages with no detected collision and restore into freshly reset hashers, comparing digests only.",
  ["sha1cd.go","internal/const.go"],[("encoding","sha1cd.go: MarshalBinary, appendUint32, appendUint64"),("decoding","sha1cd.go: UnmarshalBinary, consumeUint32, consumeUint64")],
  ["MarshalBinary","UnmarshalBinary"],ST)
p("C09","Malformed saved states are rejected without effect",
  "Restoring from any byte string that does not have the documented identifier and exact size returns an error, does not panic, and leaves the hasher exactly as it was. Restoring from a well-formed one succeeds and never leads to a later panic, whatever its contents.",
  ["inputs"],"all byte strings of any length",
  "The tests never pass a malformed state.",
  ["sha1cd.go","internal/const.go"],[("validation","sha1cd.go: UnmarshalBinary")],["UnmarshalBinary"],ST)
p("C10","The bit-condition mask is exact for every expanded block",
  "For every 80-word expanded block, bit i of the mask is set if and only if the block satisfies all unavoidable bit conditions of the i-th listed disturbance vector, as published with the original implementation; a missing block yields an empty mask. The Go function and the C function of the repository return the same mask for every input.",
  ["inputs","programs"],"all 2^2560 values of the 80 words, in both implementations",
  "The one test that compares the two is skipped here (its vectors are missing) and would sample a few blocks of one file; a single wrong condition silently disables detection for one vector.",
  ["ubc/ubc.go","ubc/const.go","cgo/ubc_check.c","cgo/ubc_check.go","cgo/fallback_no_cgo.go"],
  [("conditions","ubc/ubc.go: CalculateDvMask"),("C conditions","cgo/ubc_check.c: ubc_check")],["ubc.CalculateDvMask","cgo.CalculateDvMask"])
p("C11","The disturbance-vector table is the published one",
  "The table lists, in mask-bit order and terminated by an empty entry, exactly the 32 published disturbance vectors of types I and II; each entry's 80-word message difference is the one determined by its type, step and bit offset through the local-collision construction and the SHA-1 message expansion, and its test step is 58 or 65 as published. The Go and C tables are identical.",
  ["inputs","programs"],"all 32 entries, all 80 words each, both tables",
  "A wrong word in one of 30 vectors not used by the sample files changes no test result.",
  ["ubc/const.go","ubc/ubc.go","cgo/ubc_check.c"],[("table","ubc/const.go: sha1_dvs"),("C table","cgo/ubc_check.c: sha1_dvs")],["ubc.SHA1_dvs"])
p("C12","amd64 assembly computes the portable result",
  "On amd64, for every chaining value and every message block, the assembly block function yields exactly the SHA-1 compression output, the 80 expanded message words and the intermediate states that collision detection needs, as the portable code does; a hasher that uses it is indistinguishable from one that does not. It reads and writes nothing outside its arguments and its own stack frame.",
  ["inputs","configurations"],"all chaining values, all 64-byte blocks, all register contents on entry",
  "The tests run a few dozen inputs through it, on CPUs (or emulators) that have the SHA extensions; the intermediate states influence results only for attack blocks.",
  ["sha1cdblock_amd64.s","sha1cdblock_amd64.go","sha1cdblock_generic.go"],[("assembly","sha1cdblock_amd64.s: blockAMD64"),("state completion","sha1cdblock_generic.go: rectifyCompressionState"),("native loop","sha1cdblock_amd64.go: block")],["Sum","CollisionResistantSum"])
p("C13","arm64 assembly computes the portable result",
  "On arm64, for every chaining value, every message block and any register contents on entry, the assembly block function yields exactly the SHA-1 compression output, the 80 expanded message words and the intermediate states that collision detection needs, as the portable code does; a hasher that uses it is indistinguishable from one that does not. It reads and writes nothing outside its arguments and its own stack frame.",
  ["inputs","configurations"],"all chaining values, all 64-byte blocks, all register contents on entry",
  "The tests run a few dozen inputs under emulation; the intermediate states influence results only for attack blocks, and stale register contents vary from run to run.",
  ["sha1cdblock_arm64.s","sha1cdblock_arm64.go","sha1cdblock_generic.go"],[("assembly","sha1cdblock_arm64.s: blockARM64"),("state completion","sha1cdblock_generic.go: rectifyCompressionState"),("native loop","sha1cdblock_arm64.go: block")],["Sum","CollisionResistantSum"])
p("C14","Native code runs only where the CPU supports it",
  "Whatever feature set the CPU reports, the accelerated code path is entered only if every instruction-set extension its instructions need is reported (or implied by a reported one), and never when the portable path has been forced; otherwise the portable code produces the result.",
  ["configurations"],"all combinations of reported CPU features, both values of the portable override, amd64 and arm64",
  "The test machines report one feature set each, so a missing check never faults there.",
  ["sha1cdblock_amd64.go","sha1cdblock_arm64.go","sha1cdblock_amd64.s","sha1cdblock_arm64.s"],[("feature test","sha1cdblock_amd64.go: hasSHANI; sha1cdblock_arm64.go: hasSHA1"),("dispatch","block")],["New"])
p("C15","The C-backed package agrees with the Go package",
  "For every message and every history of writes, reads and resets, the hasher of the C-backed package returns the same digest and the same collision verdict as the pure Go one, and equal results are obtained when the package is built with the C compiler disabled. Reading does not disturb its state and every write reports its full length.",
  ["inputs","histories","configurations"],"all messages below 2^61 bytes, all histories, cgo enabled and disabled",
  "The differential fuzz target runs on its empty seed only; otherwise five files are compared.",
  ["cgo/sha1.c","cgo/sha1.h","cgo/ubc_check.c","cgo/ubc_check.h","cgo/sha1.go","cgo/ubc_check.go","cgo/fallback_no_cgo.go"],
  [("C block processing","cgo/sha1.c: sha1_process, sha1_compression_states, sha1_recompression_step"),("C buffering and padding","cgo/sha1.c: SHA1DCUpdate, SHA1DCFinal, SHA1DCInit"),("Go wrapper","cgo/sha1.go"),("fallback","cgo/fallback_no_cgo.go")],["cgo.New","cgo.Sum"])
p("C16","Hashers are isolated from each other and from their inputs",
  "No operation writes to the caller's input bytes, keeps a reference to them, or changes any state other than its own hasher (and, for appending reads, the returned slice): package-level tables and variables never change after initialisation. Two hashers used in any interleaving, also concurrently from different goroutines, therefore never influence each other.",
  ["schedules","histories","inputs"],"all operations of the Go package and of its tables, from every state",
  "The tests use one hasher at a time and never reuse an input buffer after writing; a shared scratch area would go unnoticed.",
  GO+["ubc/ubc.go"],[("state confined to the receiver","sha1cd.go: digest"),("scratch on the stack","sha1cdblock_*.go: block")],["Write","Sum","CalculateDvMask"])
p("C17","No input makes hashing panic or leave its bounds",
  "For every hasher state and every argument, no operation of the Go packages panics, indexes out of range or dereferences nil, and the C code reads and writes only inside its context, its tables and the buffers it was given. Every loop terminates.",
  ["inputs","histories"],"all operations, all states, all argument lengths and contents",
  "Out-of-range access needs a particular fill level, length or table content; the tests visit a handful.",
  GO+["ubc/ubc.go","cgo/sha1.c","cgo/ubc_check.c"],[("bounds","all operations")],["all public functions"])
p("C18","Message length is accounted with 64 bits",
  "The length appended by the padding is the exact number of message bits modulo 2^64 for messages of any size, also beyond 2^29 and 2^32 bytes, for every split into writes and after restoring a saved state, on 64-bit and 32-bit platforms, in the Go and in the C-backed hasher. The padding is one 0x80 byte, the minimal number of zero bytes and the 8-byte big-endian length.",
  ["inputs","histories","configurations"],"all total lengths modulo 2^64, all fill levels",
  "Writing gigabytes is too slow for tests; two restored states of 6 and 7 GB are all there is.",
  ["sha1cd.go","cgo/sha1.c"],[("length counter","sha1cd.go: Write, checkSum, UnmarshalBinary"),("C length counter","cgo/sha1.c: SHA1DCUpdate, SHA1DCFinal")],["Sum"],ST)
p("C19","Every real collision attack of the listed classes is detected",
  "Every block pair produced by a collision attack that follows one of the listed disturbance vectors is flagged, i.e. the bit conditions used as a filter are indeed unavoidable for such attacks.",
  ["inputs"],"all attack blocks of the 32 classes",
  "Attack blocks cost about 2^60 work each; the claim is cryptanalytic.",
  ["ubc/ubc.go","ubc/const.go"],[("filter","ubc/ubc.go: CalculateDvMask")],["CollisionResistantSum"])
p("C20","Steady-state hashing does not allocate",
  "Writing to a hasher and reading its digest into a slice with spare capacity performs no heap allocation, on every build.",
  ["inputs","configurations"],"all inputs, all builds",
  "The test measures one 13-byte input.",
  ["sha1cd.go","sha1cdblock_generic.go"],[("stack scratch","blockGeneric, block"),("no escape","sha1cd.go: Sum")],["Write","Sum"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
