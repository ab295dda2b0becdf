"""Validation policy: nostr_event_validate_full against its rule set, with the id, signature and clock by contract; expiration tags; event_parse."""
LEVEL = 'proof'
TRUSTED = ['nostr_event_compute_id, nostr_event_verify and nostr_event_from_json by their contracts (C04, C05, C07), time() as any clock value', 'contracts of the libc string/number functions the verifier has no body for: h/vf_libc.h']
ASSUME = ['the allowed skew max_future is not negative, the clock is not negative']
META = dict(
  title='Full validation accepts an event iff every stated rule holds',
  statement="Full validation accepts an event exactly when created_at is not beyond now plus the allowed skew, it has not expired, its id is the hash of its fields and its signature verifies; the result's valid flag and error code always agree with the return value, and the event is not modified. The expiration is the decimal value of the first expiration tag that has a value; a malformed one counts as none, and expired means strictly later than it. Parsing with a length reads exactly that many bytes, and a refused text hands back no event.",
  quant='every created_at, clock value, skew, expiration, hash and callee outcome',
  why='Tests try a few timestamps and one bad signature.',
  files=['src/relay_protocol.c'],
  mech=[('nostr_event_validate_full, nostr_validate_timestamp, nostr_event_get_expiration, nostr_event_is_expired, nostr_event_parse', 'src/relay_protocol.c')],
  note='validate_full is proved for all inputs, callees by contract. Expiration tags: text up to 2 arbitrary characters plus boundary constants; event_parse text up to 4 bytes (bounded).',
)
B = lambda t: t
UNITS=[
 Unit('validate_full','h_relay.c',['nostr_event_validate_full','nostr_validate_timestamp','nostr_event_is_expired','nostr_event_is_expired_now'],defs=['T_VALIDATE'],replace={'nostr_event_get_expiration':'exp_contract'},unwind=100,unwindset={'sp_memeq.0':260,'memcpy.0':260,'strncpy.0':300},libs=('cjson',)),
 Unit('expiration_any','h_relay.c',['nostr_event_get_expiration','nostr_event_get_tag_value','nostr_event_is_expired'],bounded='up to 2 tags, values up to 2 characters',defs=['T_EXP','NTX=2','EL=2','VF_KNOWNLEN'],unwind=24,libs=('cjson',)),
 Unit('expiration','h_relay.c',['nostr_event_get_expiration','nostr_event_get_tag_value','nostr_event_is_expired'],bounded='boundary values as constants',defs=['T_EXP','NTX=1','EDIG=19','EL=20','VF_KNOWNLEN'],unwind=24,libs=('cjson',)),
 Unit('event_parse','h_relay.c',['nostr_event_parse'],bounded='texts up to 4 bytes',defs=['T_PARSE','FAIL_MAX=1'],unwind=10,libs=('cjson',)),
]
