package sha1cd

func vAsm0(h []uint32, p []byte, m1 []uint32, cs [][5]uint32)

func vAsm(h []uint32, p []byte, m1 []uint32, cs [][5]uint32) uint64 {
	vAsm0(h, p, m1, cs)
	return 0
}

func vAsm8(h []uint32, p []byte, m1 []uint32, cs [][5]uint32) uint64 {
	return vAsm(h, p, m1, cs)
}
