"""Behaviour-preserving edits (development helper): refactors.py [ID...] applies each to a scratch copy, runs the tests and the
checks of the listed properties; every check must exit 0."""
import os, shutil, subprocess, sys, tempfile
B = 'bitforge/'
R = []
def ref(id, props, *edits): R.append((id, props.split(), edits))

ref('enc-int', 'C02 C03 C04 C15', (B + 'encoding.py', """    data = bytearray()
    number = integer

    while integer > 0:
        data.append(integer & 0xff)
        integer >>= 8

    if length is not None:
        if len(data) > length:
            raise InvalidInteger(number)

        zeros = bytearray(length)
        data = (data + zeros)[:length]

    if big_endian:
        data.reverse()

    return bytes(data)
""", """    data = _little_endian(integer)

    if length is not None:
        missing = length - len(data)

        if missing < 0:
            raise InvalidInteger(integer)

        data.extend(bytearray(missing))

    if big_endian:
        data = data[::-1]

    return bytes(data)


def _little_endian(rest):
    digits = bytearray()

    while rest:
        rest, digit = divmod(rest, 256)
        digits.append(digit)

    return digits
"""))
ref('dec-int', 'C02 C03 C04 C11 C15', (B + 'encoding.py', """    integer = 0

    for char in bytearray(bytes):
        integer <<= 8
        integer += char

    return integer
""", """    total = 0
    for octet in bytearray(bytes):
        total = total * 256 + octet
    return total
"""))
ref('varint', 'C02 C15', (B + 'encoding.py', """    if integer < 253:
        return encode_int(integer)

    elif integer <= 0xFFFF:
        return chr(253) + encode_int(integer, length = 2, big_endian = False)

    elif integer <= 0xFFFFFFFF:
        return chr(254) + encode_int(integer, length = 4, big_endian = False)

    else:
        return chr(255) + encode_int(integer, length = 8, big_endian = False)
""", """    if integer < 253:
        return encode_int(integer)

    for marker, length in ((253, 2), (254, 4)):
        if integer < 2 ** (8 * length):
            break
    else:
        marker, length = 255, 8

    return chr(marker) + encode_int(integer, big_endian = False, length = length)
"""), (B + 'tools.py', """        if order < 253:
            return order # single-byte varint, value is as written

        elif order == 253:
            return decode_int(self.read(2), big_endian = False)

        elif order == 254:
            return decode_int(self.read(4), big_endian = False)

        elif order == 255:
            return decode_int(self.read(8), big_endian = False)
""", """        if order < 253:
            return order # single-byte varint, value is as written

        length = { 253: 2, 254: 4, 255: 8 }[order]
        return decode_int(self.read(length), big_endian = False)
"""))
ref('script-num', 'C03 C19', (B + 'encoding.py', """    if integer == 0:
        bytes = bytearray()

    elif integer > 0:
        bytes = bytearray(encode_int(integer, big_endian = False))
        if bytes[-1] & 0x80:
            bytes += encode_int(0x00)

    else:
        bytes = bytearray(encode_int(-integer, big_endian = False))
        if bytes[-1] & 0x80:
            bytes += encode_int(0x80)
        else:
            bytes = bytes[:-1] + encode_int(bytes[-1] | 0x80)

    return bytes
""", """    if integer == 0:
        return bytearray()

    negative = integer < 0
    result = bytearray(encode_int(abs(integer), big_endian = False))

    if result[-1] & 0x80:
        result.append(0x80 if negative else 0x00)
    elif negative:
        result[-1] |= 0x80

    return result
"""), (B + 'encoding.py', """        if not (bytes[-1] & 0x7f):
""", """        top = bytes[-1]
        if top & 0x7f == 0:
"""))
ref('buffer', 'C02 C11 C15', (B + 'tools.py', """        if len(self) < amount:
            raise Buffer.InsufficientData(len(self), amount)

        ret = self[:amount]
        del self[:amount]
        return ret
""", """        remaining = len(self)

        if amount > remaining:
            raise Buffer.InsufficientData(remaining, amount)

        head, tail = self[:amount], self[amount:]
        self[:] = tail
        return head
"""), (B + 'tools.py', """        self.extend(data)
""", """        self += bytearray(data)
"""))
ref('wif', 'C04', (B + 'privkey.py', """        if len(bytes) == 33:
            compressed = False

        elif len(bytes) == 34:
            if bytes[-1] != 0x01:
                raise PrivateKey.InvalidCompressionByte(string)

            bytes = bytes[:-1]
            compressed = True

        else:
            raise PrivateKey.InvalidWifLength(bytes)

        network = find_network(bytes[0], 'wif_prefix')
        secret  = decode_int(bytes[1:])
""", """        if len(bytes) not in (33, 34):
            raise PrivateKey.InvalidWifLength(bytes)

        compressed = len(bytes) == 34

        if compressed and bytes.pop() != 1:
            raise PrivateKey.InvalidCompressionByte(string)

        prefix, secret = bytes[0], decode_int(bytes[1:33])
        network = find_network(prefix, attr = 'wif_prefix')
"""), (B + 'privkey.py', """        network_byte    = chr(self.network.wif_prefix)
        secret_bytes    = self.to_bytes()
        compressed_byte = b'\\1' if self.compressed else b''

        return encode_base58h(network_byte + secret_bytes + compressed_byte)
""", """        payload = chr(self.network.wif_prefix) + self.to_bytes()

        if self.compressed:
            payload += b'\\1'

        return encode_base58h(payload)
"""))
ref('address', 'C06', (B + 'address.py', """        version = bytearray(bytes)[0]

        network = networks.find(version, 'pubkeyhash', raises = False)
        if network is not None:
            return (network, Address.Type.PublicKey)

        network = networks.find(version, 'scripthash', raises = False)
        if network is not None:
            return (network, Address.Type.Script)

        raise Address.InvalidVersion(version)
""", """        version = bytearray(bytes)[0]

        for type in (Address.Type.PublicKey, Address.Type.Script):
            network = networks.find(version, type.value, raises = False)

            if network is not None:
                return (network, type)

        raise Address.InvalidVersion(version)
"""), (B + 'address.py', """        phash = ripemd160(sha256(pubkey.to_bytes()))
        return Address(""", """        phash = hash160(pubkey.to_bytes())
        return Address("""))
ref('networks', 'C04 C06 C10', (B + 'networks.py', """    try:
      for network in _networks:
        if getattr(network, attr) == value:
          return network

    except AttributeError:
      pass # networks don't have this attribute!

    if raises:
      raise UnknownNetwork(attr, value)""", """    matches = [n for n in _networks if hasattr(n, attr) and getattr(n, attr) == value]

    if matches:
        return matches[0]

    if raises:
        raise UnknownNetwork(attr, value)

    return None"""))
ref('script-bytes', 'C11 C12 C15', (B + 'script/script.py', """        data = bytearray()
        for i in self.instructions: data += i.to_bytes()
        return bytes(data)
""", """        return b''.join(i.to_bytes() for i in self.instructions)
"""), (B + 'script/script.py', """            opcode = Opcode(ord(buffer.read(1)))
            data   = None

            if opcode.is_const_push():
                data = buffer.read(opcode.number)

            elif opcode.is_var_push():
                length_bytes = buffer.read(Opcode.data_length_nbytes(opcode))

                length = decode_int(length_bytes, big_endian = False)
                data   = buffer.read(length)

            if data is not None:
                data = bytes(data) # immutable, like the rest of the Script

            instructions.append(Instruction(opcode, data))
""", """            instructions.append(Script._read_instruction(buffer))
"""), (B + 'script/script.py', """    @staticmethod
    def from_string(string):
""", """    @staticmethod
    def _read_instruction(buffer):
        opcode = Opcode(buffer.read(1)[0])

        if not opcode.is_push():
            return Instruction(opcode)

        length = opcode.number

        if opcode.is_var_push():
            nbytes = Opcode.data_length_nbytes(opcode)
            length = decode_int(buffer.read(nbytes), big_endian = False)

        return Instruction(opcode, bytes(buffer.read(length)))

    @staticmethod
    def from_string(string):
"""))
ref('instr-bytes', 'C11 C13 C15', (B + 'script/instruction.py', """        opcode_byte = chr(self.opcode.number)

        if self.opcode.is_const_push():
            return opcode_byte + self.data

        elif self.opcode.is_var_push():
            length_nbytes = Opcode.data_length_nbytes(self.opcode)

            length_bytes = encode_int(
                len(self.data),
                big_endian = False,
                length = length_nbytes
            )

            return opcode_byte + length_bytes + self.data

        else:
            return opcode_byte
""", """        if not self.is_push():
            return self.opcode.bytes

        return self.opcode.bytes + self._length_prefix() + self.data

    def _length_prefix(self):
        if self.opcode.is_const_push():
            return b''

        nbytes = Opcode.data_length_nbytes(self.opcode)
        return encode_int(len(self.data), False, nbytes)
"""), (B + 'script/instruction.py', """            length = len(data)
            expect = Opcode.data_length_max(opcode)

            if (opcode.is_const_push() and length != expect) or \\
               (opcode.is_var_push() and not (0 <= length <= expect)):
                raise Instruction.InvalidDataLength(opcode, length, expect)
""", """            actual, limit = len(data), Opcode.data_length_max(opcode)
            valid = actual == limit if opcode.is_const_push() else actual <= limit

            if not valid:
                raise Instruction.InvalidDataLength(opcode, actual, limit)
"""))
ref('opcode', 'C13 C11 C12', (B + 'script/opcode.py', """        if length < 1:
            raise Opcode.InvalidPushLength(length)

        for opcode in [OP_PUSHDATA1, OP_PUSHDATA2, OP_PUSHDATA4]:
            if length <= Opcode.data_length_max(opcode):
                return opcode

        raise Opcode.InvalidPushLength(length)
""", """        if not (1 <= length <= 0xffffffff):
            raise Opcode.InvalidPushLength(length)

        if length <= 0xff:
            return OP_PUSHDATA1

        return OP_PUSHDATA2 if length <= 0xffff else OP_PUSHDATA4
"""), (B + 'script/opcode.py', """            return {
                OP_PUSHDATA1: 2 ** 8,
                OP_PUSHDATA2: 2 ** 16,
                OP_PUSHDATA4: 2 ** 32
            }[opcode] - 1
""", """            return 256 ** Opcode.data_length_nbytes(opcode) - 1
"""), (B + 'script/opcode.py', """        # Get element from module
        _module = sys.modules[__name__]
        members = inspect.getmembers(_module)
        # Cast iterable to list for python 3 compatibility
        results = list(filter(lambda member: member[0] == name, members))

        if not results:
            raise Opcode.UnknownOpcodeName(name)

        return results[0][1]
""", """        opcode = globals().get(name)

        if opcode is None:
            raise Opcode.UnknownOpcodeName(name)

        return opcode
"""))
ref('script-text', 'C12', (B + 'script/script.py', """        instructions = []
        tokens = (i for i in string.split(' '))
""", """        instructions = []
        tokens = iter(string.split(' '))

        def get_data(token):
            if not token.startswith('0x'):
                raise Script.InvalidPushData(token)

            return decode_hex(token[2:])
"""), (B + 'script/script.py', """                    hex_bytes = next(tokens)

                    if not hex_bytes.startswith('0x'):
                        raise Script.InvalidPushData(hex_bytes)

                    bytes = decode_hex(hex_bytes[2:])
                    instructions.append(Instruction(opcode, data=bytes))
""", """                    instructions.append(Instruction(opcode, get_data(next(tokens))))
"""), (B + 'script/script.py', """                    if not hex_bytes.startswith('0x'):
                        raise Script.InvalidPushData(hex_bytes)

                    bytes = decode_hex(hex_bytes[2:])

                    if get_size(size_string) != len(bytes):
                        raise Script.InvalidPushDataLength(len(bytes))

                    instructions.append(Instruction(opcode, data = bytes))
""", """                    data = get_data(hex_bytes)

                    if len(data) != get_size(size_string):
                        raise Script.InvalidPushDataLength(len(data))

                    instructions.append(Instruction(opcode, data))
"""))
ref('templates', 'C14 C15 C17 C18', (B + 'script/script.py', """        for subcls in SCRIPT_SUBCLASSES:
            if subcls.is_valid(script):
                return subcls

        return None
""", """        return next((c for c in SCRIPT_SUBCLASSES if c.is_valid(script)), None)
"""), (B + 'script/script.py', """        return (
            len(structure) >= 4 and
            structure[0] != 'PUSH' and structure[0].is_number() and
            structure[-2] != 'PUSH' and structure[-2].is_number() and
            structure[-1] == OP_CHECKMULTISIG and
            all(op == 'PUSH' for op in structure[1:-2])
        )
""", """        if len(structure) < 4 or structure[-1] != OP_CHECKMULTISIG:
            return False

        for op in (structure[0], structure[-2]):
            if op == 'PUSH' or not op.is_number():
                return False

        return set(structure[1:-2]) == set(['PUSH'])
"""), (B + 'script/script.py', """            [ pubkey.to_bytes() for pubkey in pubkeys ] +
""", """            list(map(lambda pubkey: pubkey.to_bytes(), pubkeys)) +
"""))
ref('tx-bytes', 'C15 C16 C17', (B + 'transaction/transaction.py', """        # Number of inputs, as variable-length integer (1-9 bytes):
        buffer.write(encode_varint(len(self.inputs)))

        # Serialized inputs (? bytes):
        for input in self.inputs:
            buffer.write(input.to_bytes())

        # Number of outputs, as variable-length integer (1-9 bytes):
        buffer.write(encode_varint(len(self.outputs)))

        # Serialized outputs (? bytes):
        for output in self.outputs:
            buffer.write(output.to_bytes())
""", """        # Inputs and outputs, each list prefixed by its length:
        for parts in (self.inputs, self.outputs):
            buffer.write(encode_varint(len(parts)))

            for part in parts:
                buffer.write(part.to_bytes())
"""), (B + 'transaction/transaction.py', """        if len(inputs) == 0: raise cls.NoInputs()
        enforce_all(inputs, instance_of(Input), cls.NotAnInput)

        if len(outputs) == 0: raise cls.NoOutputs()
        enforce_all(outputs, instance_of(Output), cls.NotAnOutput)
""", """        if not inputs:
            raise cls.NoInputs()

        for input in inputs:
            if not isinstance(input, Input):
                raise cls.NotAnInput(input)

        if not outputs:
            raise cls.NoOutputs()

        for output in outputs:
            if not isinstance(output, Output):
                raise cls.NotAnOutput(output)
"""))
ref('tx-sign', 'C16 C17', (B + 'transaction/transaction.py', """        simplified_inputs = (
            input.remove_script() if i != txi_index else input
            for i, input in enumerate(self.inputs)
        )
""", """        simplified_inputs = []
        for i, input in enumerate(self.inputs):
            if i == txi_index:
                simplified_inputs.append(input)
            else:
                simplified_inputs.append(input.remove_script())
"""), (B + 'transaction/transaction.py', """        new_inputs = (
            signed_input if i == txi_index else input
            for i, input in enumerate(self.inputs)
        )
""", """        new_inputs = list(self.inputs)
        new_inputs[txi_index] = signed_input
"""))
ref('tx-parse', 'C15', (B + 'transaction/transaction.py', """        ninputs = buffer.read_varint()
        inputs  = [ Input.from_buffer(buffer) for i in range(ninputs) ]

        noutputs = buffer.read_varint()
        outputs  = [ Output.from_buffer(buffer) for i in range(noutputs) ]
""", """        inputs = []
        for _ in range(buffer.read_varint()):
            inputs.append(Input.from_buffer(buffer))

        outputs = []
        for _ in range(buffer.read_varint()):
            outputs.append(Output.from_buffer(buffer))
"""))
ref('input-bytes', 'C15 C17', (B + 'transaction/input.py', """        buffer = Buffer()
        script = self.script.to_bytes()

        # Reverse transaction ID (double SHA256 hex of previous tx) (32 bytes):
        buffer.write(reversed(decode_hex(self.tx_id)))

        # Previous tx output index, as little-endian uint32 (4 bytes):
        buffer.write(encode_int(self.txo_index, length = 4, big_endian = False))

        # Script length, as variable-length integer (1-9 bytes):
        buffer.write(encode_varint(len(script)))

        # Script body (? bytes):
        buffer.write(script)

        # Sequence number, as little-endian uint32 (4 bytes):
        buffer.write(encode_int(self.seq_number, length = 4, big_endian = False))

        return bytes(buffer)
""", """        def uint32(number):
            return encode_int(number, length = 4, big_endian = False)

        script = self.script.to_bytes()

        return b''.join([
            decode_hex(self.tx_id)[::-1],
            uint32(self.txo_index),
            encode_varint(len(script)),
            script,
            uint32(self.seq_number),
        ])
"""), (B + 'transaction/input.py', """        for privkey in privkeys:
            if privkey.to_public_key().to_bytes() not in expected_pubkeys:
                return False

        return True
""", """        return all(pk.to_public_key().to_bytes() in expected_pubkeys for pk in privkeys)
"""), (B + 'transaction/input.py', """        signed_script = PayToPubkeyIn.create(
            pubkey    = privkeys[0].to_public_key(),
            signature = privkeys[0].sign(payload) + chr(sigtype)
        )

        return self.replace_script(signed_script)
""", """        privkey, = privkeys
        signature = privkey.sign(payload) + chr(sigtype)
        pubkey = privkey.to_public_key()

        return self.replace_script(PayToPubkeyIn.create(pubkey, signature))
"""))
ref('hd', 'C09 C10', (B + 'hdprivkey.py', """        if index < HARDENED_START and hardened:
            index += HARDENED_START

        if index >= HARDENED_START:
            key = b'\\0' + self.to_private_key().to_bytes() # a literal 0 is prepended to private keys
        else:
            key = self.to_public_key().to_bytes()

        signed64 = hmac.new(
            self.chain,
            key + to_bytes(index, length = 4),
            hashlib.sha512
        ).digest()

        seed    = (int_from_bytes(signed64[:32]) + self.to_private_key().secret) % utils.generator_secp256k1.order()
        privkey = PrivateKey(seed, self.network)
        chain   = signed64[32:]
        depth   = self.depth + 1

        return HDPrivateKey(privkey, chain, depth, index, self.fingerprint, self.network)
""", """        if hardened and index < HARDENED_START:
            index = index + HARDENED_START

        left, chain = self._digest(index)
        order = utils.generator_secp256k1.order()
        privkey = PrivateKey((self.privkey.secret + int_from_bytes(left)) % order, self.network)

        return HDPrivateKey(privkey, chain, self.depth + 1, index, self.fingerprint, self.network)

    def _digest(self, index):
        if index < HARDENED_START:
            key = self.to_public_key().to_bytes()
        else:
            key = b'\\0' + self.privkey.to_bytes()

        data = key + to_bytes(index, length = 4)
        digest = hmac.new(self.chain, data, hashlib.sha512).digest()
        return digest[:32], digest[32:]
"""), (B + 'hdpubkey.py', """        x, y = self.pubkey.pair
        curve = utils.generator_secp256k1
        point = int_from_bytes(signed64[:32]) * curve + utils.Point(curve.curve(), x, y, curve.order())
        pubkey = PublicKey((point.x(), point.y()), self.network)
""", """        generator = utils.generator_secp256k1
        parent = utils.Point(generator.curve(), self.pubkey.pair[0], self.pubkey.pair[1], generator.order())
        point = parent + generator * int_from_bytes(signed64[:32])
        pubkey = PublicKey((point.x(), point.y()), self.network)
"""))
ref('signature', 'C21 C08', (B + 'signature.py', """    if (len(sig) < 9): return False;
    if (len(sig) > 73): return False;

    # A signature is of type 0x30 (compound).
    if (sig[0] != 0x30): return False;

    # Make sure the length covers the entire signature.
    if (sig[1] != len(sig) - 3): return False;
""", """    if not 9 <= len(sig) <= 73:
        return False

    # A signature is of type 0x30 (compound), and its length covers it all
    if sig[0] != 0x30 or sig[1] + 3 != len(sig):
        return False
"""), (B + 'signature.py', """    # Check whether the R element is an integer.
    if (sig[2] != 0x02): return False;

    # Zero-length integers are not allowed for R.
    if (lenR == 0): return False;

    # Negative numbers are not allowed for R.
    if (sig[4] & 0x80): return False;

    # Null bytes at the start of R are not allowed, unless R would
    # otherwise be interpreted as a negative number.
    if (lenR > 1 and (sig[4] == 0x00) and not (sig[5] & 0x80)):
        return False;

    # Check whether the S element is an integer.
    if (sig[lenR + 4] != 0x02): return False;

    # Zero-length integers are not allowed for S.
    if (lenS == 0): return False;

    # Negative numbers are not allowed for S.
    if (sig[lenR + 6] & 0x80): return False;

    # Null bytes at the start of S are not allowed, unless S would otherwise be
    # interpreted as a negative number.
    if (lenS > 1 and (sig[lenR + 6] == 0x00) and not (sig[lenR + 7] & 0x80)): return False;

    return True;""", """    return _is_integer(sig[2], sig[4:4 + lenR]) and _is_integer(sig[4 + lenR], sig[6 + lenR:-1])


def _is_integer(tag, digits):
    if tag != 0x02 or len(digits) == 0:
        return False

    if digits[0] >= 0x80:
        return False

    return len(digits) == 1 or digits[0] != 0 or digits[1] >= 0x80
"""))
ref('unit', 'C22 C23', (B + 'unit.py', """        if satoshis is not None:
            self._set_values(satoshis)
        elif bits is not None:
            self._set_values(bits * Unit.bits)
        elif mbtc is not None:
            self._set_values(mbtc * Unit.mbtc)
        elif btc is not None:
            self._set_values(btc * Unit.btc)
        else:
            raise ValueError('Invalid arguments')

    def _set_values(self, satoshis):
        self.satoshis = int(round(satoshis))
        self.bits = self.satoshis / Unit.bits
        self.mbtc = self.satoshis / Unit.mbtc
        self.btc = self.satoshis / Unit.btc
""", """        for value, factor in ((satoshis, 1), (bits, Unit.bits), (mbtc, Unit.mbtc), (btc, Unit.btc)):
            if value is not None:
                self.satoshis = int(round(value * factor))
                break
        else:
            raise ValueError('Invalid arguments')

        for name in ('bits', 'mbtc', 'btc'):
            setattr(self, name, self.satoshis / getattr(Unit, name))
"""))
ref('uri', 'C23', (B + 'uri.py', """        for k, v in args.items():
            if k in MEMBERS:
                setattr(self, k, v)
            else:
                self.extras[k] = v

        self.address = Address.from_string(self.address)
        self.amount = Unit(satoshis = self.amount) if 'amount' in args else None
""", """        for key in args:
            if key not in MEMBERS:
                self.extras[key] = args[key]

        self.__dict__.update((key, args[key]) for key in MEMBERS if key in args)

        self.address = Address.from_string(self.address)
        self.amount = None if 'amount' not in args else Unit(satoshis = self.amount)
"""), (B + 'uri.py', """        query = self.extras.copy()
        if self.amount:
            query['amount'] = ('%.8f' % self.amount.btc).rstrip('0').rstrip('.')
        for key in ['message', 'label', 'r']:
            value = getattr(self, key, False)
            if value: query[key] = value

        query = urlencode(sorted(query.items()))
        return 'bitcoin:' + self.address.to_string() + ('?' + query if query else '')
""", """        pairs = dict(self.extras)
        if self.amount:
            amount = '{:.8f}'.format(self.amount.btc)
            pairs['amount'] = amount.rstrip('0').rstrip('.')

        pairs.update((k, getattr(self, k)) for k in ('message', 'label', 'r') if getattr(self, k, None))

        uri = 'bitcoin:' + self.address.to_string()
        if pairs:
            uri += '?' + urlencode(sorted(pairs.items()))

        return uri
"""))
ref('interp-verify', 'C20 C19', (B + 'script/interpreter.py', """            if len(self.stack) == 0:
                self.errstr = 'SCRIPT_ERR_EVAL_FALSE_NO_P2SH_STACK'
                return False

            if not Interpreter.cast_to_bool(self.stack[-1]):
                self.errstr = 'SCRIPT_ERR_EVAL_FALSE_IN_P2SH_STACK'
                return False

        return True
""", """            return self._check_result('P2SH_STACK', 'NO_P2SH_STACK')

        return True

    def _check_result(self, found, missing):
        if not self.stack:
            self.errstr = 'SCRIPT_ERR_EVAL_FALSE_' + missing
            return False

        if not Interpreter.cast_to_bool(self.stack[-1]):
            self.errstr = 'SCRIPT_ERR_EVAL_FALSE_IN_' + found
            return False

        return True
"""), (B + 'script/interpreter.py', """        if len(self.stack) == 0:
            self.errstr = 'SCRIPT_ERR_EVAL_FALSE_NO_RESULT'
            return False

        bytes = self.stack[-1]
        if not Interpreter.cast_to_bool(bytes):
            self.errstr = 'SCRIPT_ERR_EVAL_FALSE_IN_STACK'
            return False
""", """        if not self._check_result('STACK', 'NO_RESULT'):
            return False
"""), (B + 'script/interpreter.py', """        if self.flags & Interpreter.SCRIPT_VERIFY_P2SH:
            stack_copy = list(self.stack)

        stack = self.stack
        self.initialize()
        self.script = script_pubkey
        self.stack = stack
        self.tx = tx or Transaction([ Input('', 0, Script()) ], [ Output(0, Script()) ])
        self.nin = nin or 0
        self.flags = flags or 0
""", """        stack_copy = self.stack[:]
        stack = self.stack
        self.initialize()
        self.flags = flags
        self.nin = nin
        self.tx = tx or Transaction([ Input('', 0, Script()) ], [ Output(0, Script()) ])
        self.stack = stack
        self.script = script_pubkey
"""))
ref('interp-disabled', 'C19 C20', (B + 'script/interpreter.py', """        if (instruction.opcode == OP_CAT or
            instruction.opcode == OP_SUBSTR or
            instruction.opcode == OP_LEFT or
            instruction.opcode == OP_RIGHT or
            instruction.opcode == OP_INVERT or
            instruction.opcode == OP_AND or
            instruction.opcode == OP_OR or
            instruction.opcode == OP_XOR or
            instruction.opcode == OP_2MUL or
            instruction.opcode == OP_2DIV or
            instruction.opcode == OP_MUL or
            instruction.opcode == OP_DIV or
            instruction.opcode == OP_MOD or
            instruction.opcode == OP_LSHIFT or
            instruction.opcode == OP_RSHIFT):
""", """        if instruction.opcode in (
            OP_CAT, OP_SUBSTR, OP_LEFT, OP_RIGHT, OP_INVERT, OP_AND, OP_OR, OP_XOR,
            OP_2MUL, OP_2DIV, OP_MUL, OP_DIV, OP_MOD, OP_LSHIFT, OP_RSHIFT
        ):
"""), (B + 'script/interpreter.py', """            if instruction.opcode in [OP_1NEGATE, OP_1, OP_2, OP_3, OP_4, OP_5, OP_6, OP_7, OP_8, OP_9, OP_10, OP_11, OP_12, OP_13, OP_14, OP_15, OP_16]:
                number = instruction.opcode.number - (OP_1.number - 1)
                bytes = encode_script_number(number)
                self.stack += [bytes]
""", """            if instruction.opcode == OP_1NEGATE or OP_1 <= instruction.opcode <= OP_16:
                number = instruction.opcode.number - 80
                self.stack.append(encode_script_number(number))
"""), (B + 'script/interpreter.py', """                self.altstack += self.stack[-1:]
                self.stack = self.stack[:-1]
""", """                self.altstack.append(self.stack.pop())
"""), (B + 'script/interpreter.py', """            while self.pc < len(self.script.instructions):
                if not self.step():
                    return False

                if len(self.stack) + len(self.altstack) > 1000:
                    self.errstr = 'SCRIPT_ERR_STACK_SIZE'
                    return False
""", """            total = len(self.script.instructions)

            while self.pc != total:
                if not self.step():
                    return False

                elements = len(self.stack) + len(self.altstack)

                if elements > 1000:
                    self.errstr = 'SCRIPT_ERR_STACK_SIZE'
                    return False
"""))
ref('errors', 'C24 C01', (B + 'errors.py', """        self.prepare(*args, **kwargs)
        message = self.__doc__.format(**self.__dict__)
        super(BitforgeError, self).__init__(message)
""", """        self.prepare(*args, **kwargs)
        super(BitforgeError, self).__init__(self._message())

    def _message(self):
        return self.__doc__.format(**vars(self))
"""), (B + 'errors.py', """        self.string = repr(string)
        self.length = len(string)
""", """        self.length = len(string)
        self.string = repr(string)
"""))


def main():
    only = sys.argv[1:]
    for id, ps, edits in R:
        if only and id not in only: continue
        w = tempfile.mkdtemp(dir='/tmp')
        subprocess.check_call(['cp', '-a', '/repo/.', w])
        for f, a, b in edits:
            p = os.path.join(w, f)
            t = open(p).read()
            assert t.count(a) == 1, (id, f, t.count(a), a)
            open(p, 'w').write(t.replace(a, b))
        if os.environ.get('KEEP'):
            print(id, w)
            continue
        t = subprocess.run(['/opt/venv/bin/python', '-B', '-m', 'pytest', '-q', '-p', 'no:cacheprovider'], cwd=w, capture_output=True, text=True).stdout.strip().split('\n')[-1]
        print(id, 'tests:', t, flush=True)
        for c in ps:
            r = subprocess.run(['python3-vt', '-B', '-m', 'pydv.check', c, '--tier', 'quick', '-v'], cwd='/verif', env=dict(os.environ, PYDV_REPO=w), capture_output=True, text=True)
            open('/tmp/ref_%s_%s.log' % (id, c), 'w').write(r.stdout + r.stderr)
            bad = [l[:200] for l in r.stdout.split('\n') if 'VIOLATION' in l or 'not proved:' in l or 'fails on' in l]
            print('  ', c, 'exit', r.returncode, *(['\n      ' + l for l in bad]), flush=True)
        shutil.rmtree(w)


main()
