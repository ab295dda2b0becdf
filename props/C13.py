"""Relay message construction and serialization, each message type, with every single allocation failure."""
LEVEL='other'
TRUSTED=['executable contract of cJSON (h/vf_cjson.h); contract of nostr_event_to_json (checked under C07); replay uses the real libcjson']
ASSUME=['in the verifier build the members of the relay message union are laid out side by side (union as struct); native replay uses the real layout']
META=dict(
 title='Relay messages are serialized whole, within the buffer, or refused',
 statement="A constructed EVENT, OK, EOSE, CLOSED, NOTICE, AUTH or COUNT message holds its arguments, cut to their fields and terminated, with a count never negative. Serializing it prints an array of exactly its items in order, never one with an item missing, writes it only if text and terminator fit in the buffer, and reports its length; serializing an event likewise never writes beyond the buffer. Nothing leaks, also when memory runs out.",
 quant='all message types, strings, buffer sizes and single allocation failures', over=['inputs','fault_sequences'], why='Tests serialize a few messages into large buffers with memory available.',
 files=['src/relay_message.c','src/relay_protocol.c'], mech=[('nostr_relay_msg_serialize, nostr_relay_msg_event/ok/eose/closed/notice/auth/count','src/relay_message.c'),('nostr_event_serialize','src/relay_protocol.c')],
 note='Bounded: construction with strings around each field size, serialization with strings up to 2 characters; the printed text is abstract. cJSON by contract.')
B='strings around each field size; serialized strings up to 2 characters'
L=('cjson',)
US={'vf_strlen.0':26,'h1.0':30,'h1.1':30,'h1.2':30,'h1.3':30,'h1.4':30}
UB={'vf_strn.0':262,'strncpy.0':262,'strk.0':262,'fld.0':262}
U=lambda n,*d,**k:Unit(n,'h_message.c',['nostr_relay_msg_serialize','nostr_relay_msg_event','nostr_relay_msg_ok','nostr_relay_msg_eose','nostr_relay_msg_closed','nostr_relay_msg_notice','nostr_relay_msg_auth','nostr_relay_msg_count'],bounded=B,defs=['T_RELAYMSG','VF_KNOWNLEN','VFJ_PCONST','VFJ_SMAX=8']+list(d),unwind=k.get('unwind',12),unwindset=dict(US,**UB) if n=='build' else US,libs=L)
UNITS=[U('build','T_BUILD'),*[U('message%d'%t,'TLO=%d'%t,'THI=%d'%t) for t in range(7)],*[U('message%d_oom'%t,'FAIL_MAX=10','TLO=%d'%t,'THI=%d'%t) for t in range(7)],
 Unit('event','h_relay.c',['nostr_event_serialize'],bounded=B,defs=['T_SERIALIZE'],unwind=10,libs=L)]
