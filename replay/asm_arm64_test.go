package sha1cd

const vAsmName = "blockARM64"

func vNative() bool { return hasSHA1 }
