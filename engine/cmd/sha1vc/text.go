package main

func trusted(prop string, assumed []string) []string {
	out := []string{
		"sha1vc (/verif/engine): go/ssa translation by golang.org/x/tools, symbolic execution, term normalisation",
		"z3 (z3-new on PATH), with z3 4.8.12 and cvc5 1.1.2 as second opinions on time-outs",
		"the Go compiler translates the verified source faithfully",
		"/verif/spec (the executable specification; compared with crypto/sha1 and the published collisions by its own tests)",
		"the fold laws of absorb/flagged (proved in /verif/lean/Absorb.lean)",
	}
	if cSide[prop] {
		out = append(out, "clang 18 -O0 translates the package's C sources to LLVM IR as the C compiler used by cgo translates them to machine code; sha1vc's reading of that IR (csym)")
	}
	if asmSide[prop] {
		out = append(out, "sha1vc's semantics of the x86-64 and arm64 instructions used (engine/asm), llvm-objdump's disassembly of the linked function")
	}
	return append(out, assumed...)
}

var (
	cSide   = map[string]bool{"C10": true, "C11": true, "C15": true, "C16": true, "C17": true, "C18": true}
	asmSide = map[string]bool{"C12": true, "C13": true}
	asmUse  = map[string]bool{"C01": true, "C02": true, "C03": true, "C04": true, "C05": true, "C06": true, "C07": true, "C08": true, "C09": true, "C14": true, "C16": true, "C17": true, "C18": true}
)

func assumptions(prop string) []string {
	out := []string{
		"slices are shorter than 2^62 bytes (2^30 on 32-bit platforms)",
		"append grows a slice by allocating a fresh array when the capacity does not suffice, and writes in place otherwise",
		"fmt and errors functions return without touching the hasher (error values are opaque but non-nil)",
		"the memory model is sequential per hasher; distinct arguments of a call do not overlap unless the contract says so",
		"in `return f(), x.field` the field is read after the call, as go/ssa orders it and the compiler does today",
	}
	if asmUse[prop] {
		out = append(out, "assembly functions meet their contracts (obligations of C12 and C13)")
	}
	if asmSide[prop] {
		out = append(out,
			"constant data of the linked test binary is at the addresses this link gave it; the function's own instructions and data are the ones of this build",
			"the function is entered with a 64-byte block and non-overlapping arguments, as its only caller does (checked there)")
	}
	if prop == "C14" {
		out = append(out, "internal/cpu and golang.org/x/sys/cpu report a feature only if the processor has it; SSE4.1 implies SSSE3 and SSE3 on every x86-64 processor")
	}
	if cSide[prop] {
		out = append(out,
			"the C code is verified as compiled for x86-64 Linux (LP64, little-endian); other ABIs are not covered",
			"pointer arithmetic in C is checked against the whole object passed (context, table, buffer), not against single members",
			"casts of char pointers to uint32_t pointers are taken as byte-wise accesses (alignment and effective-type rules of ISO C unchecked, as the code itself relies on under its unaligned-access macro)",
			"memcpy and memset of the C library copy and fill as specified")
	}
	return out
}
