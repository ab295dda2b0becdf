"""Event id: the six-item NIP-01 array is checked node by node when it is printed, and the hash input is the printed text."""
LEVEL = 'other'
TRUSTED = ['executable contract of cJSON (h/vf_cjson.h): documented ownership, list and lookup semantics, text <-> tree abstract in the proofs and the real libcjson when a counterexample is replayed', 'contracts of the libc string/number functions the verifier has no body for: h/vf_libc.h', 'SHA256 / mbedtls_sha256 compute SHA-256 of their input']
ASSUME = ['|created_at| < 10^15']
META = dict(
  title='The event id is SHA-256 of the NIP-01 serialization of the event',
  statement='Computing an event id sets it to the SHA-256 of the JSON array [0, lower-case hex pubkey, created_at, kind, tags, content], with every tag and every tag value in order, and changes nothing else in the event. If memory runs out at any point it fails instead of producing the id of a different event, and nothing leaks. Both crypto back ends give the same.',
  quant='all field contents, tag shapes and allocation failure points; both build configurations',
  over=['inputs', 'fault_sequences', 'configurations'],
  why='Tests hash a few fixed events; a dropped or reordered value in some shape, or a silently missing element when an allocation fails, changes the id of events the tests never build.',
  files=['src/event.c'],
  mech=[('nostr_event_compute_id, serialize_for_id, nostr_event_json_complete', 'src/event.c')],
  note='Bounded: tag lists of up to 3 tags with up to 2 values of up to 2 characters each, arbitrary bytes; every allocation failure point for one shape. cJSON and SHA-256 are assumed contracts; |created_at| < 10^15 (cJSON number text).',
)
L = ('cjson', 'crypto')
W={'vf_fill.0':200,'sp_memeq.0':260}

SH={'a':'{0},{1,0},{1,1}','b':'{1,2},{2,1,2}','c':'{3,1,0,2}'}
UNITS = [Unit('id_'+k, 'h_event.c', ['nostr_event_compute_id', 'serialize_for_id'], bounded='tag shapes %s (tags, values of each), strings up to 2 characters' % v, defs=['T_ID','VFJ_SMAX=68','NL=2','VFE_SHAPES='+v], unwind=70, unwindset=W, libs=L) for k,v in SH.items()
]
UNITS += [Unit('id_oom', 'h_event.c', ['nostr_event_compute_id', 'serialize_for_id', 'nostr_event_json_complete'], bounded='one tag with one value, strings up to 1 character, each of the allocations failing', defs=['T_ID','FAIL_MAX=14','VFJ_SMAX=68','NL=1','VFE_SHAPES={1,1}'], unwind=70, unwindset=W, libs=L),
 Unit('id_mbedtls', 'h_event.c', ['nostr_event_compute_id', 'serialize_for_id', 'event_sha256'], bounded='one tag with one value', defs=['T_ID','VFJ_SMAX=68','NL=2','VFE_SHAPES={1,1}'], unwind=70, unwindset=W, libs=('cjson','crypto','mbedcrypto'), conf='mbedtls')]
