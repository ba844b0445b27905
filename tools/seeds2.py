SEEDS = [
 dict(id='c04-wif-longer', property='C04', edits=[('bitforge/privkey.py', "        elif len(bytes) == 34:", "        elif len(bytes) >= 34:")],
  needs='a checksummed WIF payload longer than 34 bytes whose secret has extra leading zero bytes and which ends in 1', breaks='malformed WIF yields a key', demo='''
from bitforge.encoding import encode_base58h
from bitforge.privkey import PrivateKey
try: PrivateKey.from_wif(encode_base58h(bytes([0x80, 0]) + b'\\x11' * 32 + b'\\x01'))
except PrivateKey.InvalidWifLength: raise SystemExit(0)
raise SystemExit(1)
'''),
 dict(id='c05-x-leading-zero', property='C05', edits=[('bitforge/utils/encoding.py', "    x_str = to_bytes_32(public_pair[0])", "    x_str = from_long(public_pair[0], 0, 256, lambda x: x)")],
  needs='a point whose x coordinate has a zero top byte (one key in 256)', breaks='the SEC form is one byte short', demo='''
from bitforge.privkey import PrivateKey
from bitforge.pubkey import PublicKey
for k in range(1, 2000):
    q = PrivateKey(k).to_public_key()
    if q.pair[0] >> 248 == 0:
        assert len(q.to_bytes()) == 33 and PublicKey.from_bytes(q.to_bytes()) == q
        break
else: raise SystemExit(2)
'''),
]
