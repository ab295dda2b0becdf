"""Filter matching, one unit per condition, plus their conjunction and the disjunction over filters."""
LEVEL='other'
TRUSTED=['nostr_bytes_to_hex, nostr_validate_hex64, nostr_validate_hex_prefix by their contracts (C01)']
ASSUME=[]
META=dict(
 title='A filter matches exactly the events that satisfy all its conditions',
 statement="An event matches a filter iff its id and author start with one of the listed prefixes, its kind is listed, created_at lies in the inclusive since-until range, and for each tag filter some tag of that name has one of the listed values as first value; conditions that are absent do not restrict. Several filters match iff one of them does, a search term is an additional condition decided by the callback, and without one it does not match. A filter validates iff all its ids, authors, #e and #p values are well formed.",
 quant='all events and filters, with every combination of conditions', why='Tests try one condition at a time on sample events.',
 files=['src/relay_filter.c'], mech=[('nostr_filter_matches, nostr_filters_match, nostr_filter_matches_with_search, nostr_filter_validate','src/relay_filter.c')],
 note='since/until complete over all values. Lists up to 2 (ids, authors, tag values, tags) or 3 (kinds) or 4 (filters) elements; prefixes up to 65 characters; tag strings up to 2 characters.')
B='lists of up to 2 (kinds 3, filters 4) elements; prefixes up to 65, tag strings up to 2 characters'
L=('cjson',)
UNITS=[
 Unit('time','h_filter.c',['nostr_filter_matches'],defs=['T_MATCH','MODE=5','PMAX=2'],unwind=70,libs=L),
 Unit('prefixes','h_filter.c',['nostr_filter_matches'],bounded=B,defs=['T_MATCH','MODE=1','PMAX=65','SYMHEX'],unwind=70,libs=L),
 Unit('kinds','h_filter.c',['nostr_filter_matches'],bounded=B,defs=['T_MATCH','MODE=2','PMAX=2'],unwind=70,libs=L),
 Unit('tags','h_filter.c',['nostr_filter_matches'],bounded=B,defs=['T_MATCH','MODE=3','PMAX=2'],unwind=70,unwindset={'strcmp.0':4,'sp_eq.0':4},libs=L),
 *[Unit('tags_'+n,'h_filter.c',['nostr_filter_matches'],bounded=B,defs=['T_MATCH','MODE=%d'%m,'PMAX=2'],unwind=70,unwindset={'strcmp.0':4,'sp_eq.0':4},libs=L) for n,m in (('p',6),('generic',7))],
 Unit('all','h_filter.c',['nostr_filter_matches'],bounded=B,defs=['T_MATCH','MODE=4','PMAX=2'],unwind=70,unwindset={'strcmp.0':4,'sp_eq.0':4},libs=L),
 Unit('any','h_filter.c',['nostr_filters_match','nostr_filter_matches_with_search','nostr_filters_match_with_search'],bounded=B,defs=['T_ANY'],replace={'nostr_filter_matches':'match_contract'},unwind=70,libs=L),
 Unit('validate','h_filter.c',['nostr_filter_validate'],bounded=B,defs=['T_VALIDATE'],unwind=300,libs=L),
]
