"""Client message parsing: the message type, the second item and the filters are enumerated, with every single allocation failure."""
LEVEL='other'
TRUSTED=['executable contract of cJSON (h/vf_cjson.h); contracts of nostr_event_from_json, nostr_filter_parse, nostr_filter_validate (checked under C07, C11, C08); replay uses the real libcjson']
ASSUME=['in the verifier build the members of the client message union are laid out side by side (union as struct); native replay uses the real layout']
META=dict(
 title='Client messages are parsed faithfully; malformed ones are refused',
 statement="Parsing an EVENT, REQ, CLOSE, AUTH or COUNT message yields the named type with the event, the whole subscription id and every filter in order. A message with an unknown type, a missing second item, an invalid subscription id, an event or filter that does not parse or validate, or more than ten filters is refused. Nothing leaks or is freed twice, also when memory runs out, and freeing empties the message.",
 quant='all message types, second items, filter counts and single allocation failures', over=['inputs','fault_sequences'], why='Tests parse a few valid messages.',
 files=['src/relay_message.c'], mech=[('nostr_client_msg_parse, nostr_client_msg_free, nostr_client_msg_get_*','src/relay_message.c')],
 note='Bounded: twelve type strings and no or non-string type; subscription ids of 1 to 70 characters; up to 11 filters. cJSON and the event and filter parsers by contract.')
B='enumerated types, second items and up to 11 filters'
L=('cjson',)
US={'vf_strlen.0':26,'sp_len.0':72,'sp_eq.0':72,'spec_sub.0':72,'vf_strn.0':72,'cJSON_CreateString.0':72,'strncpy.0':72,'vfj_setkey.0':9,'vfj_keyeq.0':9,'strcmp.0':72,'h1.0':20,'h1.1':20,'h1.2':20,'h1.3':20,'client.1':16,'client.0':72,'eqn.0':72}
U=lambda n,m,*d,**k:Unit(n,'h_message.c',['nostr_client_msg_parse','nostr_client_msg_free'],bounded=B,defs=['T_CLIENT','VF_KNOWNLEN','VFJ_PCONST','MODE=%d'%m]+list(d),unwind=k.get('unwind',6),unwindset=US,libs=L)
UNITS=[*[U('types%d'%t,1,'TLO=%d'%t,'THI=%d'%t,unwind=9) for t in range(5)],U('types_other',1,'TLO=5','THI=12','VF_NOACC',unwind=9),U('filters',2),U('limit',3,unwind=14),U('oom',0,'FAIL_MAX=7')]
