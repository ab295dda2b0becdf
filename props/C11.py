"""Filter parsing per member and all at once, accessors, free and clone, with every single allocation failure."""
LEVEL='other'
TRUSTED=['executable contract of cJSON (h/vf_cjson.h); replay uses the real libcjson']
ASSUME=[]
META=dict(
 title='A filter is parsed, copied and freed faithfully, never widened',
 statement="Parsing a filter takes exactly the listed ids, authors, kinds, single-letter tag filters, since, until, limit and search, in order; any member of the wrong type, with an element of the wrong type, or with a fractional or out-of-range kind or timestamp is refused rather than ignored, and unknown members are ignored. The accessors return those fields, and a clone equals its source and shares no memory with it. A refused or failed operation leaves an empty filter, and nothing leaks or is freed twice, also when memory runs out.",
 quant='all member types, list sizes, values and single allocation failures', over=['inputs','fault_sequences'], why='Tests parse a few valid filters.',
 files=['src/relay_filter.c'], mech=[('nostr_filter_parse, nostr_filter_clone, nostr_filter_free, nostr_filter_get_*','src/relay_filter.c')],
 note='Bounded: lists up to 2 elements of up to 2 characters, two generic tag filters; kinds any int32. cJSON by contract.')
B='lists up to 2 elements of up to 2 characters'
L=('cjson',)
U=lambda n,m,*d:Unit(n,'h_filter.c',['nostr_filter_parse','nostr_filter_free'],bounded=B,defs=['T_PARSE','VF_KNOWNLEN','MODE=%d'%m,'VFJ_SMAX=4']+list(d),unwind=13,unwindset={'sp_memeq.0':300,'sp_eq.0':6,'vf_strlen.0':26,'h.0':22,'h.1':22},libs=L)
K=lambda n,*d:Unit(n,'h_filter.c',['nostr_filter_parse','nostr_filter_free'],bounded='up to 2 kinds',defs=['T_PARSE','VF_KNOWNLEN','MODE=2','VFJ_SMAX=4']+list(d),unwind=4,unwindset={'vfj_setkey.0':9,'vfj_keyeq.0':9,'run.0':13,'h1.0':10,'h1.1':10,'h1.2':10,'h.0':10,'h.1':10,'vf_strlen.0':26},libs=L)
UNITS=[U('strings%d'%k,1,'KLO=%d'%k,'KHI=%d'%k) for k in range(6)]+[U('strings_oom',1,'KLO=2','KHI=4','FAIL_MAX=5'),K('kinds'),K('kinds_oom','FAIL_MAX=2'),U('scalars',3,'FAIL_MAX=2'),U('other',4),U('all',0),U('all_oom',0,'FAIL_MAX=15')]+[
 Unit('clone%s'%s,'h_filter.c',['nostr_filter_clone','nostr_filter_free'],bounded=B,defs=['T_CLONE','VF_KNOWNLEN']+d,unwind=13,unwindset={'sp_memeq.0':300,'sp_eq.0':6,'vf_strlen.0':26,'h.0':22,'h.1':22},libs=L) for s,d in (('',[]),('_oom',['FAIL_MAX=18']))]
