package sha1cd

const vAsmName = "blockAMD64"

func vNative() bool { return hasSHANI }
