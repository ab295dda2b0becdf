"""Tag accessors and iterators over tag lists of the stated shapes, and the binary e/p tag extraction."""
LEVEL = 'other'
TRUSTED = ['contracts of the libc string/number functions the verifier has no body for: h/vf_libc.h']
ASSUME = []
META = dict(
  title='Tag accessors return exactly the tags and values the event has',
  statement='Looking a tag up by name returns the first tag of that name (for a value: the first that has one), collecting values returns them in tag order and never more than asked for, and indexed access returns that tag or nothing when out of range. The iterator visits every tag once, in order. The binary e and p accessors return one 32-byte entry, in order, for each tag whose value is 64 lower-case hex digits, and nothing leaks.',
  quant='tag lists, names, indices and allocation failures',
  over=['inputs', 'fault_sequences'],
  why='Tests look up one or two tags.',
  files=['src/relay_protocol.c'],
  mech=[('nostr_event_get_tag_value(s), nostr_event_find_tag, nostr_tag_iterator_*, nostr_event_get_e_tags_binary, nostr_event_get_p_tags_binary', 'src/relay_protocol.c')],
  note='Bounded: up to 3 tags of up to 3 values of up to 2 characters; binary tags up to 2 tags of 65 arbitrary characters.',
)
UNITS=[Unit('tags%d'%k,'h_relay.c',['nostr_event_get_tag_value','nostr_event_get_tag_values','nostr_event_has_tag','nostr_event_find_tag','nostr_event_get_tag_at','nostr_event_get_tag','nostr_tag_get_value','nostr_tag_iterator_next','nostr_tag_iterator_next_info'],bounded='tag shapes of the unit, strings up to 2 characters',defs=['T_TAGS','NL=2','VFE_SHAPES='+s],unwind=70,unwindset={'vf_fill.0':70},libs=('cjson',)) for k,s in enumerate(('{0},{1,1}','{2,1,2}','{3,2,2,3}'))]+[
 Unit('bin_'+p,'h_relay.c',['nostr_event_get_%s_tags_binary'%p],bounded='up to 2 tags',defs=['T_BIN','PFX="%s"'%p,'H1N=2','FAIL_MAX=1'],unwind=70,libs=('cjson',)) for p in 'ep']
