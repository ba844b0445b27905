"""The Bitcoin script opcode table (script.h of the reference client), independent of the code under test."""
NAMES = {'OP_0': 0, 'OP_FALSE': 0, 'OP_PUSHDATA1': 76, 'OP_PUSHDATA2': 77, 'OP_PUSHDATA4': 78, 'OP_1NEGATE': 79, 'OP_RESERVED': 80,
         'OP_TRUE': 81, 'OP_PUBKEYHASH': 253, 'OP_PUBKEY': 254, 'OP_INVALIDOPCODE': 255, 'OP_CHECKLOCKTIMEVERIFY': 177}
for k in range(1, 17): NAMES['OP_%d' % k] = 80 + k
for k, n in enumerate('NOP VER IF NOTIF VERIF VERNOTIF ELSE ENDIF VERIFY RETURN TOALTSTACK FROMALTSTACK 2DROP 2DUP 3DUP 2OVER 2ROT '
                      '2SWAP IFDUP DEPTH DROP DUP NIP OVER PICK ROLL ROT SWAP TUCK CAT SUBSTR LEFT RIGHT SIZE INVERT AND OR XOR EQUAL '
                      'EQUALVERIFY RESERVED1 RESERVED2 1ADD 1SUB 2MUL 2DIV NEGATE ABS NOT 0NOTEQUAL ADD SUB MUL DIV MOD LSHIFT '
                      'RSHIFT BOOLAND BOOLOR NUMEQUAL NUMEQUALVERIFY NUMNOTEQUAL LESSTHAN GREATERTHAN LESSTHANOREQUAL '
                      'GREATERTHANOREQUAL MIN MAX WITHIN RIPEMD160 SHA1 SHA256 HASH160 HASH256 CODESEPARATOR CHECKSIG '
                      'CHECKSIGVERIFY CHECKMULTISIG CHECKMULTISIGVERIFY NOP1'.split()):
    NAMES['OP_' + n] = 97 + k
for n in ('VER', 'VERIF', 'VERNOTIF'): del NAMES['OP_' + n]       # reserved words the library does not name
for k in range(3, 11): NAMES['OP_NOP%d' % k] = 175 + k
NUMBERS = {}
for _name, _n in NAMES.items():
    if _name not in ('OP_FALSE', 'OP_TRUE'): NUMBERS[_n] = _name
