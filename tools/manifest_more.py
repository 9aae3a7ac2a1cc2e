T['C10'] = 'contract of CalculateDvMask and of the C ubc_check/check (result equals the table of bit conditions), discharged by normalisation and SMT'
T['C11'] = 'the vector table as a postcondition of SHA1_dvs and of the C array over the initialised state, discharged by evaluation of the real initialiser'
T['C12'] = 'contract of blockAMD64 discharged on its linked machine code (symbolic execution, all inputs), and agreement of the two block loops'
T['C13'] = 'contract of blockARM64 discharged on its linked machine code (symbolic execution, all inputs), and agreement of the two block loops'
T['C14'] = 'precondition (instruction set extensions) of the assembly functions at every call, over arbitrary reported CPU features, discharged by SMT'
T['C15'] = 'contracts on the C functions (SHA1DCInit, SHA1DCUpdate, SHA1DCFinal, sha1_process, ubc_check) extracted as LLVM IR on every run, on the Go wrapper and on the fallback, against the same specification as the Go package; discharged by SMT'
NOTES.update({i: NOTE0 + ' C code: extracted on every run by clang -O0 -emit-llvm from the package\'s own sources with cgo\'s flags; x86-64 Linux only.' for i in ('C10', 'C11', 'C15', 'C16', 'C17', 'C18')})
