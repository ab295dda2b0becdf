"""Sign and verify against the contracts of nostr_event_compute_id (C04) and of libsecp256k1; no loop depends on the event size, so the result holds for every event."""
LEVEL = 'proof'
TRUSTED = ['contracts of libsecp256k1 (each call may fail; outputs arbitrary), of the RNG and of the secure wipe: h/vf_secp.h', 'nostr_event_compute_id by its contract (C04)']
ASSUME = []
META = dict(
  title='Verification accepts exactly validly signed events; signing fails closed',
  statement="An event is accepted only if its id is the hash of its own fields and its signature verifies over that id under its own pubkey, and every such event is accepted. Signing sets the signer's pubkey, the matching id and a signature over that id with fresh auxiliary randomness, and reports success only then. Neither leaves secret key material or nonce randomness behind, on any path including failures, and verification does not modify the event.",
  quant='all events, keys and outcomes (including failure) of every crypto and RNG call',
  over=['inputs', 'fault_sequences'],
  why='Tests sign and verify good events and one tampered field; they do not reach failing crypto calls, an RNG failure or the wipes.',
  files=['src/event.c'],
  mech=[('nostr_event_verify, nostr_event_sign', 'src/event.c')],
  note='Complete: no loop over event-sized data remains once nostr_event_compute_id is replaced by its contract. secp256k1, RNG and wipe are assumed contracts, each free to fail.',
)
R = {'nostr_event_compute_id': 'cid_contract'}
L = ('cjson', 'crypto')
UNITS = [
  Unit('verify', 'h_event.c', ['nostr_event_verify'], defs=['T_VERIFY','NL=1','VFE_SHAPES={1,1}'], replace=R, unwind=260, libs=L),
  Unit('sign', 'h_event.c', ['nostr_event_sign'], defs=['T_SIGN','NL=1','VFE_SHAPES={1,1}'], replace=R, unwind=260, libs=L),
]
