#!/usr/bin/env python3
"""C01: integer, system and FPU instructions encode exactly what was written."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, encode
def check():
    C = vf.Check("C01", "exploration", "an instruction instance (form x random operands) whose emitted bytes were decoded by objdump and compared with the decoding of GNU as's encoding of the same instruction; distinct by (code size, source text)",
                 ["GNU as and objdump 2.42 are right about the instructions both know", "the supported set is data/forms.txt, the operand forms GNU as accepts and the baseline accepted"])
    encode.run_forms(C, "C01", 8 if not vf.THOROUGH else 40, special=True)
    return C.finish(5000)
if __name__ == "__main__": vf.main(check)
