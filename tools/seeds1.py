SEEDS = [
 dict(id='c01-short-checksum', property='C01', edits=[('bitforge/utils/encoding.py', "    if double_sha256(data)[:4] == the_hash:", "    if double_sha256(data).startswith(the_hash):")],
  needs='a text whose decoding has fewer than 4 bytes and matches the start of the hash of the empty string (the empty text is one)',
  breaks='decode_base58h accepts text that carries no full checksum', demo='''
from bitforge.encoding import decode_base58h, InvalidBase58h
try: decode_base58h('')
except InvalidBase58h: raise SystemExit(0)
raise SystemExit(1)
'''),
 dict(id='c02-varint-65535', property='C02', edits=[('bitforge/encoding.py', "elif integer <= 0xFFFF:", "elif integer < 0xFFFF:")],
  needs='the single value 65535', breaks='CompactSize of 65535 is not canonical', demo='''
from bitforge.encoding import encode_varint
assert encode_varint(65535) == b'\\xfd\\xff\\xff'
'''),
 dict(id='c02-read-consumes', property='C02', edits=[('bitforge/tools.py', """        if len(self) < amount:
            raise Buffer.InsufficientData(len(self), amount)

        ret = self[:amount]
        del self[:amount]
        return ret
""", """        ret = self[:amount]
        del self[:amount]

        if len(ret) < amount:
            raise Buffer.InsufficientData(len(ret), amount)

        return ret
""")], needs='a read past the end followed by another use of the buffer', breaks='a refused read consumes the rest of the buffer', demo='''
from bitforge.tools import Buffer
b = Buffer(b'abc')
try: b.read(5)
except Buffer.InsufficientData: pass
assert bytes(b) == b'abc'
'''),
 dict(id='c03-second-byte', property='C03', edits=[('bitforge/encoding.py', "            if len(bytes) <= 1 or not (bytes[-2] & 0x80):", "            if len(bytes) <= 1 or not (bytes[0] & 0x80):")],
  needs='a non-minimal number of three or four bytes whose first byte has its top bit set', breaks='a padded number is accepted as minimal (and some minimal ones refused)', demo='''
from bitforge.encoding import decode_script_number, InvalidMinimalScriptNumber
try: decode_script_number(b'\\x80\\x01\\x00', True)
except InvalidMinimalScriptNumber: raise SystemExit(0)
raise SystemExit(1)
'''),
 dict(id='c04-compression-bit', property='C04', edits=[('bitforge/privkey.py', "            if bytes[-1] != 0x01:", "            if not bytes[-1] & 0x01:")],
  needs='a checksummed WIF payload of 34 bytes ending in an odd byte other than 1', breaks='malformed WIF yields a key', demo='''
from bitforge.encoding import encode_base58h
from bitforge.privkey import PrivateKey
try: PrivateKey.from_wif(encode_base58h(bytes([0x80]) + b'\\x11' * 32 + b'\\x03'))
except PrivateKey.InvalidCompressionByte: raise SystemExit(0)
raise SystemExit(1)
'''),
 dict(id='c04-from-hex-network', property='C04', edits=[('bitforge/privkey.py', "        return PrivateKey.from_bytes(bytes, network, compressed)", "        return PrivateKey.from_bytes(bytes, network, compressed or len(string) != 64)")],
  needs='an uncompressed key parsed from hexadecimal that is not 64 characters (never valid)', breaks='nothing', demo='raise SystemExit(1)'),
 dict(id='c05-prefix-parity', property='C05', edits=[('bitforge/utils/ecdsa.py', "    if is_even == bool(beta & 1):\n        return (x, p - beta)", "    if is_even == bool(beta & 1) and beta != 1:\n        return (x, p - beta)")],
  needs='x coordinate whose square root is 1', breaks='wrong parity', demo='raise SystemExit(1)'),
 dict(id='c06-script-network', property='C06', edits=[('bitforge/address.py', "        phash = ripemd160(sha256(script.to_bytes()))\n        return Address(phash, network, Address.Type.Script)", "        phash = ripemd160(sha256(script.to_bytes()))\n        return Address.from_bytes(chr(networks.default.scripthash) + phash)")],
  needs='an address of a script on another network than the default', breaks='script addresses always get the default network', demo='''
from bitforge.address import Address
from bitforge import networks
from bitforge.script import Script
assert Address.from_script(Script([]), networks.testnet).network.name == 'testnet'
'''),
]
SEEDS = [s for s in SEEDS if s['breaks'] not in ('nothing', 'wrong parity')]
