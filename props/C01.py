"""Hex codec: unbounded loop-contract proofs of the generic codec, complete proofs of the fixed-width key codec, bounded companions that also serve as the replay harness."""
LEVEL = 'proof'
META = dict(
  title='Hex text and bytes convert exactly, and malformed hex is refused',
  statement='Encoding bytes as hex gives exactly two lower-case digits per byte, and decoding gives back exactly the bytes a well-formed even-length hex text (either case) stands for. Text of odd length, with any non-hex character, or that does not fit the output or the fixed 32-byte key width is refused, without writing beyond the output buffer. The relay-side validators accept exactly the 64-character (or 1..64-character prefix) lower-case hex strings.',
  quant='all strings and byte buffers of any length, for every hex entry point of the library, keys included',
  why='Tests decode a few valid keys and a few wrong lengths; a wrong digit class at one position or an off-by-one at one length is not sampled.',
  files=['src/utils.c', 'src/key.c', 'src/relay_protocol.c'],
  mech=[('nostr_hex_decode / nostr_hex_encode', 'src/utils.c'), ('nostr_key_from_hex, nostr_privkey_from_hex, nostr_key_to_hex, nostr_privkey_to_hex', 'src/key.c'), ('nostr_hex_to_bytes, nostr_bytes_to_hex, nostr_validate_hex64, nostr_validate_hex_prefix', 'src/relay_protocol.c')],
  note='Generic codec: inductive loop contracts, no bound on length (up to 2^28 bytes of buffer). Fixed-width codec: complete unwinding, every input. strlen and sprintf("%02x") are assumed contracts.',
)
TRUSTED = ['contracts of strlen and sprintf("%02x") assumed for libc (h/h_hex.c, h/vf_libc.h)']
ASSUME = ['strings and buffers up to 2^28 bytes in the unbounded units (object size limit of the memory model)']
DEC = r'for \(size_t i = 0; i < hex_len / 2; i\+\+\)(?= \{)'
RDEC = r'for \(size_t i = 0; i < bytes_needed; i\+\+\)(?= \{)'
ENC = r'for \(size_t i = 0; i < len; i\+\+\)(?= \{\s*sprintf\(out)'
RENC = r'for \(size_t i = 0; i < bytes_len; i\+\+\)(?= \{)'
A = '__CPROVER_assigns(i, __CPROVER_object_whole(out))\n'
INV = '__CPROVER_loop_invariant(g_k < i ==> (ISHX(hex[2*g_k]) && ISHX(hex[2*g_k+1]) && out[g_k] == HXV(hex[2*g_k]) * 16 + HXV(hex[2*g_k+1])))\n'
EINV = '__CPROVER_loop_invariant(g_k < i ==> (out[2*g_k] == HXD(%s[g_k] >> 4) && out[2*g_k+1] == HXD(%s[g_k] & 15)))\n' % ('bytes', 'bytes')
def dec(n): return A + '__CPROVER_loop_invariant(i <= %s)\n' % n + INV + '__CPROVER_decreases(%s - i)' % n
def decv(n): return A + '__CPROVER_loop_invariant(i <= %s)\n__CPROVER_decreases(%s - i)' % (n, n)
# instantiation of the precondition `every character is a hex digit' at the two characters read
INST = (r'__CPROVER_decreases\(\S[^;{]* - i\)\s*\{', '__CPROVER_assume(ISHX(hex[2*i]) && ISHX(hex[2*i+1]));')
def enc(n): return A + '__CPROVER_loop_invariant(i <= %s)\n' % n + EINV + '__CPROVER_decreases(%s - i)' % n
U, R = 'src/utils.c', 'src/relay_protocol.c'
def unb(name, fn, defs, f, pat, ins, fb, **kw):
    return Unit(name, 'h_hex.c', [fn], defs=['T_UNB'] + defs, loops=True, annotate={f: [(pat, ins)] + ([INST] if 'T_VALID' in defs else [])}, fallback=fb, native=False, **kw)
UNITS = [
    unb('hex_decode_unb', 'nostr_hex_decode', ['T_DEC'], U, DEC, dec('hex_len / 2'), 'hex_decode'),
    unb('hex_decode_unb_valid', 'nostr_hex_decode', ['T_DEC', 'T_VALID'], U, DEC, decv('hex_len / 2'), 'hex_decode'),
    unb('hex_encode_unb', 'nostr_hex_encode', ['T_ENC'], U, ENC, enc('len'), 'hex_encode'),
    unb('relay_decode_unb', 'nostr_hex_to_bytes', ['T_DEC', 'T_RELAY'], R, RDEC, dec('bytes_needed'), 'relay_decode'),
    unb('relay_decode_unb_valid', 'nostr_hex_to_bytes', ['T_DEC', 'T_RELAY', 'T_VALID'], R, RDEC, decv('bytes_needed'), 'relay_decode'),
    unb('relay_encode_unb', 'nostr_bytes_to_hex', ['T_ENC', 'T_RELAY'], R, RENC, enc('bytes_len'), 'relay_encode'),
    Unit('hex_decode', 'h_hex.c', ['nostr_hex_decode'], defs=['T_BDEC'], unwind=16, bounded='companion and replay harness: strings up to 10 characters'),
    Unit('hex_encode', 'h_hex.c', ['nostr_hex_encode'], defs=['T_BENC'], unwind=16, bounded='companion and replay harness: up to 5 bytes'),
    Unit('relay_decode', 'h_hex.c', ['nostr_hex_to_bytes'], defs=['T_BDEC', 'T_RELAY'], unwind=16, bounded='companion and replay harness: strings up to 10 characters'),
    Unit('relay_encode', 'h_hex.c', ['nostr_bytes_to_hex'], defs=['T_BENC', 'T_RELAY'], unwind=16, bounded='companion and replay harness: up to 5 bytes'),
    Unit('key_from_hex', 'h_hex.c', ['nostr_key_from_hex', 'nostr_privkey_from_hex', 'nostr_hex_decode'], defs=['T_FIXED', 'T_KEY'], unwind=68),
    Unit('key_to_hex', 'h_hex.c', ['nostr_key_to_hex', 'nostr_privkey_to_hex'], defs=['T_TOHEX', 'T_KEY'], unwind=68),
    Unit('validate_hex', 'h_hex.c', ['nostr_validate_hex64', 'nostr_validate_hex_prefix'], defs=['T_FIXED', 'T_RELAY'], unwind=68),
]
