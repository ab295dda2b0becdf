"""Kind classes and the replacement order: complete, unbounded obligations over all kinds and all event triples."""
LEVEL = 'proof'
TRUSTED = []
ASSUME = []
META = dict(
  title='Kind classes and the replacement order are exact',
  statement='Every kind falls into exactly one NIP-01 class: replaceable 0, 3 and 10000-19999, ephemeral 20000-29999, addressable 30000-39999, all others regular; kind 5 is deletion. Comparing two versions of a replaceable or addressable event prefers the newest created_at and, on a tie, the lexicographically lowest id; this is a strict total order whose result never depends on argument order.',
  quant='all 32-bit kinds, all pairs and triples of events',
  why='Tests sample a few kinds and timestamps.',
  files=['src/relay_protocol.c'],
  mech=[('nostr_kind_get_type, nostr_kind_is_*, nostr_event_compare_replaceable, nostr_event_compare_addressable', 'src/relay_protocol.c')],
  note='Complete: all loops have constant bounds (32-byte ids), all inputs symbolic.',
)
UNITS=[Unit('kinds','h_relay.c',['nostr_kind_get_type','nostr_kind_is_regular','nostr_kind_is_replaceable','nostr_kind_is_ephemeral','nostr_kind_is_addressable'],defs=['T_KIND'],unwind=4,libs=('cjson',)),
 Unit('order','h_relay.c',['nostr_event_compare_replaceable','nostr_event_compare_addressable'],defs=['T_CMP'],unwind=35,libs=('cjson',))]
