SEEDS = [
 dict(id='c07-add-equal', property='C07', edits=[('bitforge/utils/ellipticcurve.py', "      if ( self.__y + other.__y ) % self.__curve.p() == 0:", "      if self.__order or ( self.__y + other.__y ) % self.__curve.p() == 0:")],
  needs='adding a point that knows its order to an equal point', breaks='P + P is infinity for points with a known order', demo='''
from bitforge.utils.secp256k1 import generator_secp256k1 as G
from bitforge.utils.ellipticcurve import INFINITY
assert (G + G).x() == (2 * G).x() and (G + G).y() == (2 * G).y()
'''),
 dict(id='c08-verify-range', property='C08', edits=[('bitforge/utils/ecdsa.py', "    if s < 1 or s > n-1: return False", "    if s < 1: return False")],
  needs='a signature whose s is given as s + n', breaks='a second form of the same signature is accepted', demo='''
from bitforge.utils import ecdsa
from bitforge.utils.secp256k1 import generator_secp256k1 as G
n = G.order()
r, s = ecdsa.sign(G, 12345, 678)
q = ecdsa.public_pair_for_secret_exponent(G, 12345)
assert ecdsa.verify(G, q, 678, (r, s)) is True
assert ecdsa.verify(G, q, 678, (r, s + n)) is False
'''),
 dict(id='c09-child-network', property='C09', edits=[('bitforge/hdprivkey.py', "        privkey = PrivateKey(seed, self.network)", "        privkey = PrivateKey(seed)")],
  needs='deriving from a key of another network than the default one', breaks='the private key of the child is on the default network', demo='''
from bitforge import networks
from bitforge.hdprivkey import HDPrivateKey
from bitforge.privkey import PrivateKey
k = HDPrivateKey(PrivateKey(12345, networks.testnet), b'c' * 32, network=networks.testnet)
l = HDPrivateKey(PrivateKey(12345, networks.livenet), b'c' * 32, network=networks.livenet)
assert k.derive(1).privkey.network == networks.testnet
assert l.derive(1).privkey.network == networks.livenet
'''),
 dict(id='c12-name-prefix', property='C12', edits=[('bitforge/script/opcode.py', "lambda member: member[0] == name", "lambda member: member[0].startswith(name)")],
  needs='script text with a word that is only the beginning of an opcode name', breaks='unknown opcode names are taken for the first known one that starts with them', demo='''
from bitforge.script import Script
for t in ('OP_CHECKSI', 'OP_DU OP_1', 'OP_PUSHDATA 1 0x00'):
    try: s = Script.from_string(t)
    except Script.Error: s = None
    assert s is None, s
'''),
 dict(id='c15-many-outputs', property='C15', edits=[('bitforge/transaction/transaction.py', "        buffer.write(encode_varint(len(self.outputs)))", "        buffer.write(encode_varint(min(len(self.outputs), 65535)))")],
  needs='a transaction with more than 65535 outputs', breaks='the number of outputs is cut off at 65535', demo='''
from bitforge.transaction import Transaction, Input, Output
from bitforge.script import Script
t = Transaction([Input('00' * 32, 0, Script())], [Output(5, Script())] * 65600)
d = t.to_bytes()
assert d[4 + 1 + 41:][:5] == b'\\xfe\\x40\\x00\\x01\\x00', d[46:52]
'''),
 dict(id='c16-keeps-list', property='C16', edits=[('bitforge/transaction/transaction.py', "        outputs = tuple(outputs)", "        outputs = outputs if isinstance(outputs, list) else tuple(outputs)")],
  needs='a list of outputs that is changed after the transaction was made from it', breaks='the transaction changes with the list', demo='''
from bitforge.transaction import Transaction, Input, Output
from bitforge.script import Script
o = [Output(5, Script())]
t = Transaction([Input('00' * 32, 0, Script())], o)
before = t.to_bytes()
o.append(Output(7, Script()))
assert t.to_bytes() == before and len(t.outputs) == 1
'''),
 dict(id='c17-sequence', property='C17', edits=[('bitforge/transaction/input.py', "        return Input(self.tx_id, self.txo_index, script, self.seq_number)", "        return Input(self.tx_id, self.txo_index, script)")],
  needs='signing a transaction with an input whose sequence number is not final', breaks='signing resets sequence numbers', demo='''
from bitforge import *
from bitforge.transaction import Transaction, Input, Output, AddressInput
from bitforge.script import Script
k = PrivateKey(7)
t = Transaction([AddressInput.create('00' * 32, 0, k.to_address(), 5)], [Output(5, Script())])
assert t.sign([k], 0).inputs[0].seq_number == 5
'''),
 dict(id='c17-earlier-inputs', property='C17', edits=[('bitforge/transaction/transaction.py', "            input.remove_script() if i != txi_index else input", "            input.remove_script() if i > txi_index else input")],
  needs='signing an input after another one that has a script', breaks='the signature commits to the scripts of earlier inputs', demo='''
from bitforge import *
from bitforge.encoding import sha256
from bitforge.transaction import Transaction, Input, Output, AddressInput
from bitforge.script import Script
k = PrivateKey(7)
a = k.to_address()
ins = [AddressInput.create('11' * 32, 0, a), AddressInput.create('22' * 32, 1, a)]
t = Transaction(ins, [Output(5, Script())])
s = t.sign([k], 1).inputs[1].script.get_signature()
plain = Transaction([Input('11' * 32, 0, Script()), ins[1]], [Output(5, Script())]).to_bytes() + b'\\1\\0\\0\\0'
assert k.verify(s[:-1], sha256(sha256(plain)))
'''),
 dict(id='c18-too-many-keys', property='C18', edits=[('bitforge/transaction/input.py', "        if len(privkeys) != self.script.get_min_signatures():", "        if len(privkeys) < self.script.get_min_signatures():")],
  needs='asking whether more keys than required can sign', breaks='can_sign is true for too many keys', demo='''
from bitforge import *
from bitforge.transaction.input import MultisigInput
ks = [PrivateKey(i) for i in (5, 6, 7)]
i = MultisigInput.create('00' * 32, 0, [k.to_public_key() for k in ks], 2)
assert i.can_sign(ks[:2]) is True and i.can_sign(ks) is False
'''),
 dict(id='c20-script-size', property='C20', edits=[('bitforge/script/interpreter.py', "        if len(self.script.to_bytes()) > 10000:", "        if len(self.script.instructions) > 10000:")],
  needs='a script of more than 10000 bytes with fewer instructions', breaks='the limit on the size of a script', demo='''
from bitforge.script import *
from bitforge.script.interpreter import Interpreter
from bitforge.script.opcode import *
from bitforge.script.instruction import Instruction
code = [Instruction.push_for(b'x' * 500)] * 30 + [Instruction(OP_1)]
assert Interpreter().verify(Script([]), Script(code)) is False
'''),
 dict(id='c22-whole-mbtc', property='C22', edits=[('bitforge/unit.py', "            self._set_values(mbtc * Unit.mbtc)", "            self._set_values(mbtc * 1000 * int(Unit.bits))")],
  needs='an amount in mBTC whose product with 1000 is rounded before the product with 100', breaks='some amounts in mBTC are a satoshi off', demo='''
from bitforge.unit import Unit
import random
r = random.Random(1)
for _ in range(300000):
    s = r.randrange(21 * 10 ** 14)
    u = Unit(mbtc=Unit(satoshis=s).mbtc)
    assert u.satoshis == s, s
'''),
 dict(id='c22-at-rate', property='C22', edits=[('bitforge/unit.py', "        return Unit(btc = value / float(rate))        ", "        return Unit(bits = round(value / float(rate) * 1e6))")],
  needs='a fiat amount that is not a whole number of bits', breaks='amounts from fiat values are rounded to bits', demo='''
from bitforge.unit import Unit
assert Unit.from_fiat(1, 30000).satoshis == 3333
'''),
 dict(id='c23-extras', property='C23', edits=[('bitforge/uri.py', "        query = self.extras.copy()", "        query = self.extras")],
  needs='looking at the parameters of a URI after writing it', breaks='writing a URI adds the known parameters to its extra ones', demo='''
from bitforge.uri import URI
u = URI('bitcoin:1DNGqhsa4kz5mkKGHPXjbFSXZqCRJVLvoc?amount=1.5&label=x&other=y'.replace('1DNGqhsa4kz5mkKGHPXjbFSXZqCRJVLvoc', '1BvBMSEYstWetqTFn5Au4m4GFg7xJaNVN2'))
u.to_uri()
assert u.extras == {'other': 'y'}, u.extras
'''),
 dict(id='c24-length', property='C24', edits=[('bitforge/errors.py', "        self.length = len(string)", "        self.length = len(self.string) - 2")],
  needs='an error about a string whose repr() has escapes, or a byte string', breaks='the length in the message is that of the escaped string', demo='''
from bitforge.privkey import PrivateKey
for b in (b'\\x00\\x01', b'ab'):
    try: PrivateKey.from_bytes(b)
    except PrivateKey.InvalidBinaryLength as e: assert e.length == 2 and str(e).endswith('not 2'), str(e)
'''),
]
