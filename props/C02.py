"""BIP-173 codec of keys and event ids: polymod by loop contract, its algebraic lemma, then every encoder/decoder against the polymod contract."""
LEVEL = 'proof'
TRUSTED = ['contracts of the libc string/number functions the verifier has no body for: h/vf_libc.h']
ASSUME = []
META = dict(
  title='npub/nsec/note encodings round-trip and reject every corrupted string',
  statement='Encoding a 32-byte key or event id yields the BIP-173 string with the right prefix and checksum, and decoding that string yields the same 32 bytes. A string is accepted only if it has a valid bech32 checksum, one case, legal characters, the expected prefix and exactly 32 bytes of data with zero padding. No input string makes the codec read or write outside its buffers, and an output buffer that is too small is refused.',
  quant='all 32-byte values, all prefixes up to five characters for the generic encoder, all strings up to the 90-character bech32 limit for the decoders',
  why='Tests round-trip a few keys; the checksum, padding and character rules quantify over every string.',
  files=['src/bech32.c'],
  mech=[('bech32_polymod, bech32_create_checksum, bech32_decode, bech32_convert_bits', 'src/bech32.c'), ('nostr_key_to_bech32 ... nostr_event_id_from_bech32', 'src/bech32.c')],
  note='polymod proved by an unbounded loop contract; encoders and decoders proved for every value against that contract by complete unwinding (bech32 strings have at most 90 characters). The generic encoder is checked for prefixes of 0..5 characters.',
)
P = r'for \(size_t i = 0; i < len; i\+\+\)(?= \{\s*uint32_t top)'
PINV = '''__CPROVER_assigns(i, chk, g_chk)
__CPROVER_loop_invariant(i <= len && chk == g_chk && chk >> 30 == 0)
__CPROVER_decreases(len - i)'''
R = {'bech32_polymod': 'polymod_contract'}
S = ['VF_STUB_POLY']
UNITS = [
    Unit('polymod_unb', 'h_bech32.c', ['bech32_polymod'], defs=['T_POLY'], loops=True, native=False, fallback='polymod',
         annotate={'src/bech32.c': [(P, PINV), (r'__CPROVER_decreases\(len - i\)\s*\{', '__CPROVER_assume(values[i] < 32); g_chk = sp_step(g_chk, values[i]);')]}, pre_unwind={'bech32_polymod.0': 6}),
    Unit('polymod', 'h_bech32.c', ['bech32_polymod'], defs=['T_BPOLY'], unwind=10, bounded='8 symbols'),
    Unit('polymod_lemma', 'h_bech32.c', ['lemma over the BIP-173 polynomial'], defs=['T_LEMMA'], unwind=8, native=False),
] + [Unit('key_to_bech32_p%d' % n, 'h_bech32.c', ['nostr_key_to_bech32', 'bech32_convert_bits', 'bech32_create_checksum', 'bech32_hrp_expand'],
         defs=S+['T_ENC=0', 'HMAX=%d' % n], replace=R, unwind=80, bounded='prefix of %d arbitrary characters' % n, unwindset={'poly_post.0': 201}) for n in (0, 1, 4, 5)] + [
    Unit('privkey_to_bech32', 'h_bech32.c', ['nostr_privkey_to_bech32'], defs=S+['T_ENC=1', 'HMAX=4'], replace=R, unwind=80, unwindset={'poly_post.0': 201}),
    Unit('event_id_to_bech32', 'h_bech32.c', ['nostr_event_id_to_bech32'], defs=S+['T_ENC=2', 'HMAX=4'], replace=R, unwind=80, unwindset={'poly_post.0': 201}),
    Unit('key_from_bech32', 'h_bech32.c', ['nostr_key_from_bech32'], defs=S+['T_DEC=0'], replace=R, unwind=80, unwindset={'poly_post.0': 201}),
    Unit('privkey_from_bech32', 'h_bech32.c', ['nostr_privkey_from_bech32'], defs=S+['T_DEC=1'], replace=R, unwind=80, unwindset={'poly_post.0': 201}),
    Unit('event_id_from_bech32', 'h_bech32.c', ['nostr_event_id_from_bech32'], defs=S+['T_DEC=2'], replace=R, unwind=80, unwindset={'poly_post.0': 201}),
    Unit('key_from_bech32_any', 'h_bech32.c', ['nostr_key_from_bech32'], defs=S+['T_ANY=0'], replace=R, unwind=94, unwindset={'poly_post.0': 201}),
    Unit('privkey_from_bech32_any', 'h_bech32.c', ['nostr_privkey_from_bech32'], defs=S+['T_ANY=1'], replace=R, unwind=94, unwindset={'poly_post.0': 201}),
    Unit('event_id_from_bech32_any', 'h_bech32.c', ['nostr_event_id_from_bech32'], defs=S+['T_ANY=2'], replace=R, unwind=94, unwindset={'poly_post.0': 201}),
]
