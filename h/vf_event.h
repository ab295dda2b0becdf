/* an arbitrary well-formed event: up to NT tags of up to NV values, each value
 * and the content an arbitrary string of at most NL characters */
#ifndef VF_EVENT_H
#define VF_EVENT_H
#ifndef NT
#define NT 3
#endif
#ifndef NV
#define NV 4
#endif
#ifndef VFE_SHAPES
#define VFE_SHAPES {0},{1,1},{2,1,2}
#endif
#ifndef NL
#define NL 2
#endif
#ifndef NC
#define NC NL
#endif
static nostr_tag *vfe_tags;
#ifdef VFE_NOARENA
#define VFE_ARENA(e) ((e)->tag_arena = NULL)
#else
static nostr_tag_arena vfe_arena; static char vfe_mem[8];
#define VFE_ARENA(e) (vfe_arena.memory = vfe_mem, vfe_arena.capacity = 8, vfe_arena.used = 0, (e)->tag_arena = &vfe_arena)
#endif
static const int vfe_sh[][4] = { /* tags, values of each tag */ VFE_SHAPES };
#define VFE_NSH (sizeof vfe_sh / sizeof vfe_sh[0])
static void vfe_build(nostr_event *e, size_t sh){
    memset(e, 0, sizeof *e);
    vf_fill(e->id, NOSTR_ID_SIZE); vf_fill(e->pubkey.data, NOSTR_PUBKEY_SIZE); vf_fill(e->sig, NOSTR_SIG_SIZE);
    e->created_at = vf_i64(); e->kind = vf_u16();
    VFE_ARENA(e);
    e->tags_count = (size_t)vfe_sh[sh][0];
    vfe_tags = vf_tmp((NT + 1) * sizeof *vfe_tags);
    for (size_t i = 0; i < e->tags_count; i++) {
        vfe_tags[i].count = (size_t)vfe_sh[sh][1 + i]; vfe_tags[i].values = vf_tmp((NV + 1) * sizeof(char*));
        for (size_t j = 0; j < vfe_tags[i].count; j++) vfe_tags[i].values[j] = vf_str(NL);
    }
    e->tags = vfe_tags;
    if (vf_bool()) e->content = vf_str(NC);
    else e->content = NULL;
}
#endif
