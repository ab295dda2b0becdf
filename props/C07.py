"""Event JSON: one unit per member of the object, and the printed tree of to_json."""
LEVEL = 'proof'
TRUSTED = ['executable contract of cJSON (h/vf_cjson.h): documented ownership, list and lookup semantics, text <-> tree abstract in the proofs and the real libcjson when a counterexample is replayed', 'contracts of the libc string/number functions the verifier has no body for: h/vf_libc.h', 'nostr_event_add_tag by its contract (C06)']
ASSUME = ['|created_at| < 10^15 for produced text']
META = dict(
  title='Event JSON is parsed and produced faithfully, and bad input is refused',
  statement="Parsing an event takes each member's exact value, keeps every tag and value in order and invents none; malformed hex, a kind outside 0..65535, a non-integer created_at, and content or tags beyond the configured limits are refused. Producing JSON emits exactly the seven members with the event's values. A refused parse hands back no event, and nothing leaks on any path.",
  quant='all member values, types and combinations, tag shapes and limits',
  over=['inputs', 'fault_sequences'],
  why='Tests parse a few well-formed documents.',
  files=['src/event.c'],
  mech=[('nostr_event_from_json, nostr_event_to_json, hex_to_bytes', 'src/event.c')],
  note='Per member; created_at/kind complete over numbers to 2^60; id/pubkey/sig strings up to two characters beyond their length; tags bounded by the stated shapes. cJSON is an assumed contract; nostr_event_add_tag by its contract (C06).',
)
L = ('cjson', 'crypto')
F = ['nostr_event_from_json', 'hex_to_bytes', 'nostr_event_add_tag', 'nostr_event_destroy']
R = {'nostr_event_add_tag': 'at_contract'}
U = lambda n, k, sm, *d: Unit(n, 'h_event.c', F, bounded=None if n == 'from_num' else 'strings up to %d characters, tag shapes of the harness' % (sm - 2), defs=['T_FROMJSON','FIELD=%d'%k,'VFJ_SMAX=%d'%sm,'NL=2']+list(d), unwind=140, libs=L, replace=R)
UNITS = [ U('from_id',1,68,'VFE_SHAPES={0}'), U('from_pubkey',2,68,'VFE_SHAPES={0}'), U('from_sig',3,132,'VFE_SHAPES={0}'), U('from_num',4,8,'VFE_SHAPES={0}'), U('from_content',5,8,'VFE_SHAPES={0}'),
 U('from_tags',6,8,'VF_KNOWNLEN','VFE_SHAPES={0},{1,0},{1,2}'), U('from_tags2',6,8,'VF_KNOWNLEN','VFE_SHAPES={2,-1,3},{3,2,0,1}'), 
 Unit('to_json', 'h_event.c', ['nostr_event_to_json'], bounded='two tags with up to 2 values of up to 2 characters', defs=['T_TOJSON','VFJ_SMAX=132','NL=2','VFE_SHAPES={2,1,2}'], unwind=260, libs=L),
]
