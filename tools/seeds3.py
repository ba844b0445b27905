SEEDS = [
 dict(id='c10-depth-sign', property='C10', edits=[('bitforge/hdprivkey.py', "        depth   = int_from_bytes(data[HDPrivateKey.DepthStart : HDPrivateKey.DepthEnd])", "        depth   = int_from_bytes(data[HDPrivateKey.DepthStart : HDPrivateKey.DepthEnd]) & 0x7F")],
  needs='an HD private key string with depth 128 or more', breaks='the depth is not restored', demo='''
from bitforge.hdprivkey import HDPrivateKey
from bitforge.privkey import PrivateKey
k = HDPrivateKey(PrivateKey(12345), b'c' * 32, 200, 7, 99)
assert HDPrivateKey.from_string(k.to_string()).depth == 200
'''),
 dict(id='c11-empty-pushdata', property='C11', edits=[('bitforge/script/instruction.py', """        elif self.opcode.is_var_push():
            length_nbytes""", """        elif self.opcode.is_var_push() and self.data:
            length_nbytes""")],
  needs='a PUSHDATA instruction with no data', breaks='its length field is not written', demo='''
from bitforge.script import *
d = bytes.fromhex('4c004d00004e0000000051')
assert Script.from_bytes(d).to_bytes() == d
'''),
 dict(id='c13-pushdata1-255', property='C13', edits=[('bitforge/script/instruction.py', "        elif len(self.data) <= 255:", "        elif len(self.data) < 255:")],
  needs='a push of exactly 255 bytes', breaks='is_minimal_push says PUSHDATA2 is the minimal push of 255 bytes', demo='''
from bitforge.script.instruction import Instruction
from bitforge.script.opcode import OP_PUSHDATA1, OP_PUSHDATA2
assert Instruction(OP_PUSHDATA1, b'x' * 255).is_minimal_push() is True
assert Instruction(OP_PUSHDATA2, b'x' * 255).is_minimal_push() is False
'''),
 dict(id='c14-multisig-last-key', property='C14', edits=[('bitforge/script/script.py', "            all(op == 'PUSH' for op in structure[1:-2])", "            all(op == 'PUSH' for op in structure[1:-3])")],
  needs='a multisig-like script whose last key is not a push', breaks='a script that is not the template is given its class', demo='''
from bitforge.script import *
from bitforge.script.script import RedeemMultisig
from bitforge.script.opcode import *
from bitforge.script.instruction import Instruction
s = Script.create([Instruction(OP_1), Instruction(Opcode(33), b'k' * 33), Instruction(OP_DUP), Instruction(OP_2), Instruction(OP_CHECKMULTISIG)])
assert not isinstance(s, RedeemMultisig)
'''),
 dict(id='c19-roll-zero', property='C19', edits=[('bitforge/script/interpreter.py', "                    self.stack.pop(-n-1)", "                    self.stack.remove(bytes)")],
  needs='OP_ROLL with an equal element further down the stack', breaks='OP_ROLL removes the first equal element, not the one rolled', demo='''
from bitforge.script import *
from bitforge.script.interpreter import Interpreter
from bitforge.script.opcode import *
from bitforge.script.instruction import Instruction
i = Interpreter()
i.initialize()
i.script, i.flags = Script([Instruction(OP_ROLL)]), 0
i.stack = [b'a', b'b', b'a', b'c', b'\\x01']
assert i.step() and i.stack == [b'a', b'b', b'c', b'a'], i.stack
'''),
 dict(id='c20-altstack-limit', property='C20', edits=[('bitforge/script/interpreter.py', "                if len(self.stack) + len(self.altstack) > 1000:", "                if max(len(self.stack), len(self.altstack)) > 1000:")],
  needs='more than 1000 items spread over both stacks', breaks='the limit on the number of stack items', demo='''
from bitforge.script import *
from bitforge.script.interpreter import Interpreter
from bitforge.script.opcode import *
from bitforge.script.instruction import Instruction
I = Instruction
code = [I(OP_1)] * 10 + [I(OP_TOALTSTACK)] * 5 + [I(OP_1)] * 994
assert Interpreter().verify(Script([]), Script(code)) is False
'''),
 dict(id='c21-s-zero', property='C21', edits=[('bitforge/signature.py', "    if (lenS > 1 and (sig[lenR + 6] == 0x00) and not (sig[lenR + 7] & 0x80)): return False;", "    if (lenS > 2 and (sig[lenR + 6] == 0x00) and not (sig[lenR + 7] & 0x80)): return False;")],
  needs='a signature whose S is two bytes with a needless leading zero', breaks='a non-minimal S is accepted', demo='''
from bitforge.signature import validate_signature
assert validate_signature(bytes.fromhex('30070201010202000101')) is False
'''),
]
