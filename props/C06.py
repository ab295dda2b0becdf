"""Tag arena: create/destroy/set_content with every allocation failing, and add_tag from every pre-state layout of the stated shapes."""
LEVEL = 'proof'
TRUSTED = ['contracts of the libc string/number functions the verifier has no body for: h/vf_libc.h']
ASSUME = []
META = dict(
  title='Adding tags never corrupts earlier tags, whatever the arena has to do',
  statement='Adding a tag appends exactly that tag with copies of its values and leaves every earlier tag and value intact, also when the backing storage has to grow and move. An empty tag, a NULL value, or a tag beyond the configured limit is refused and leaves the event unchanged, and so does running out of memory. Creating, filling and destroying an event never leaks, double-frees or touches memory outside its storage.',
  quant='every reachable storage layout and fill level, tag contents, limits and allocation failures',
  over=['inputs', 'histories', 'fault_sequences'],
  why='Tests add a few tags that fit the first block; growth with a particular fill level and alignment is not sampled.',
  files=['src/event.c'],
  mech=[('tag_arena_alloc, nostr_event_add_tag, nostr_event_set_content, nostr_event_destroy', 'src/event.c')],
  note='Inductive step over any pre-state of the stated layouts (up to 2 existing tags of up to 2 values, arbitrary gap and contents, arena of 16 to 64 bytes so that growth happens), so histories of any length within those layouts; bounded in the layouts.',
)
L = ('cjson', 'crypto')
U = lambda n, sh, cap, gap, *d: Unit(n, 'h_event.c', bounded='pre-state shape %s in an arena of %d bytes; new tag of up to 2 values of up to 2 characters' % (sh, cap), functions=['nostr_event_add_tag', 'tag_arena_alloc'], defs=['T_ADDTAG','VF_KNOWNLEN','NL=2','NT=2','NV=2','VFE_SHAPES='+sh,'CAP=%d'%cap,'GAP=%d'%gap]+list(d), unwind=20, unwindset={'vf_fill.0':60}, libs=L)
UNITS = [
  Unit('create', 'h_event.c', ['nostr_event_create','nostr_event_destroy','nostr_event_set_content','tag_arena_create','tag_arena_destroy'], defs=['T_CREATE','FAIL_MAX=6','VFE_SHAPES={0}'], unwind=260, libs=L),
  U('add_0', '{0}', 16, 2), U('add_1', '{1,1}', 32, 1), U('add_2', '{2,1,2}', 64, 1), U('add_1f', '{1,2}', 32, 0, 'FAIL_MAX=3', 'CNT=1'),
]
