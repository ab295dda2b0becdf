"""Properties this family of technique does not decide here."""
NA = [
 dict(id='C90', title='Concurrent use of the library is free of data races',
  statement='Independent events, keys and filters may be used from different threads at the same time, and library initialisation may be raced by several threads, without any data race or torn state.',
  over=['schedules'], quant='every interleaving of API calls on distinct objects',
  why='Tests run one or two schedules; a race shows only on particular ones.',
  files=['src/event.c', 'src/config.c', 'docs/THREAD_SAFETY.md'], mech=[('global secp256k1 context and configuration', 'src/event.c nostr_init; src/config.c')],
  reason='Function contracts as CBMC checks them are sequential: they say nothing about interleavings, and the libraries own locks (pthread, secp256k1, libwebsockets) are external. Deciding it needs a concurrency analysis, which is another family of technique.'),
 dict(id='C91', title='Relay connections deliver, reconnect and time out as documented',
  statement='A relay object delivers each queued message at most once and in order, reports every state change through its callback, and releases all resources when destroyed, whatever the peer and the network do.',
  over=['schedules', 'histories', 'fault_sequences'], quant='every network behaviour and callback order',
  why='The relay tests only use stubs or a reachable server.',
  files=['src/relay.c'], mech=[('libwebsockets callback state machine', 'src/relay.c')],
  reason='The behaviour is decided by libwebsockets calling back from its own service thread; the contract of that library (reentrancy, ordering, threads) is not available and a hand-written one would be the model being proved, not the code.'),
 dict(id='C92', title='Encrypted direct messages (NIP-04/17/44/46/47/59) round-trip and authenticate',
  statement='Decrypting what was encrypted for a peer returns the plaintext, and any modified ciphertext, wrong peer or malformed payload is refused.',
  over=['inputs'], quant='all plaintexts, keys and payloads',
  why='Tests use a handful of vectors.',
  files=['src/nip44.c', 'src/nip17.c', 'src/nip59.c', 'src/nip46.c', 'src/nip47.c'], mech=[('conversation key, padding and MAC', 'src/nip44.c')],
  reason='These sources are not compiled by the build of this sandbox (their noscrypt dependency is absent, no header to parse them with), so there is no running code here to verify or to replay a counterexample on.'),
 dict(id='C93', title='Secret-dependent code runs in constant time',
  statement='Comparison of secrets and key handling take time and memory accesses independent of the secret values.',
  over=['inputs'], quant='all pairs of secrets', why='Timing is not observable in a unit test.',
  files=['src/utils.c', 'src/key.c'], mech=[('nostr_constant_time_memcmp', 'src/utils.c')],
  reason='A relational (two-run) property of the compiled machine code; contracts over single runs of the C source do not express it, and the compiler may break it below the level verified.'),
]
