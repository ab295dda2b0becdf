"""Deletion requests: parse/free ownership with the validators by contract, and the two authorization decisions against their definition."""
LEVEL = 'other'
TRUSTED = ['contracts of the libc string/number functions the verifier has no body for: h/vf_libc.h', 'in the parse units nostr_validate_hex64 and nostr_validate_address by their contracts (C01 and unit address)']
ASSUME = []
META = dict(
  title='A deletion request only ever authorizes its own author',
  statement='Parsing a kind 5 event lists exactly its valid e and a tags in order, its author and its reason, leaks nothing even when memory runs out, and refuses any other kind. A listed event id authorizes deleting an event only if that event has the same author; a listed address authorizes deleting exactly the addressable event of that kind, author and d tag, whatever the length of the d tag. An address is valid iff it is digits, a colon, 64 lower-case hex digits and a colon.',
  quant='tags, ids, addresses, authors, kinds and allocation failures',
  over=['inputs', 'fault_sequences'],
  why='Tests use one request with one matching and one foreign event.',
  files=['src/relay_protocol.c'],
  mech=[('nostr_deletion_parse, nostr_deletion_free, nostr_deletion_authorized, nostr_deletion_authorized_address, nostr_validate_address', 'src/relay_protocol.c')],
  note='Bounded: up to 2 tags, ids or addresses; ids, pubkeys and kinds fully symbolic; d tags up to 2 characters; addresses up to 72 characters.',
)
R={'nostr_validate_hex64':'hex64_contract','nostr_validate_address':'addr_contract'}
UNITS=[Unit('parse%s'%s,'h_relay.c',['nostr_deletion_parse','nostr_deletion_free'],bounded='up to 2 tags, short strings',defs=['T_DELPARSE','VF_KNOWNLEN','NT=%d'%n,'H1N=%d'%n]+d,replace=R,unwind=70,unwindset={'sp_memeq.0':260,'sp_eq.0':6},libs=('cjson',)) for s,n,d in (('1',1,[]),('2',2,[]),('2bad',2,['DEL_BAD=1']),('_oom',2,['FAIL_MAX=5']))]+[
 Unit('authorized','h_relay.c',['nostr_deletion_authorized','nostr_bytes_to_hex'],bounded='up to 2 listed ids',defs=['T_DELAUTH','H1N=2'],unwind=70,unwindset={'sp_memeq.0':260},libs=('cjson',)),
 Unit('authorized_address','h_relay.c',['nostr_deletion_authorized_address','nostr_event_get_d_tag'],bounded='up to 2 listed addresses of up to 75 characters, d tags up to 2 characters',defs=['T_DELADDR','H1N=2','VFM_DEC_HOOK=dec5'],replace={'nostr_bytes_to_hex':'tohex_contract'},unwind=80,libs=('cjson',)),
 Unit('address','h_relay.c',['nostr_validate_address','nostr_validate_subscription_id'],bounded='addresses up to 72, subscription ids up to 66 characters',defs=['T_ADDR'],unwind=80,libs=('cjson',)),
]
