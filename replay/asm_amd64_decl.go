package sha1cd

func vAsm(h []uint32, p []byte, m1 []uint32, cs [][5]uint32) (bp uint64)

func vAsm8(h []uint32, p []byte, m1 []uint32, cs [][5]uint32) (bp uint64)
