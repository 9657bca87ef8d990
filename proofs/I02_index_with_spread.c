//@ property I02
//@ plain
//@ covers tg_index_with_spread tg_index_extract_spread tg_env_set_index tg_env_set_index_spread tg_env_get_default_index tg_env_get_index_spread
void harness(void) {
    int in_ix, in_spread, in_default, in_set, in_mode;
    ASSUME(in_ix >= 0 && in_ix <= 15);
    ASSUME(in_default >= 2 && in_default <= 4096);
    default_index_spread = in_default;
    enum tg_index e = tg_index_with_spread((enum tg_index)in_ix, in_spread);
    int got = -1;
    enum tg_index kind = tg_index_extract_spread(e, &got);
    ASSERT((int)kind == in_ix, "post: the kind is decoded unchanged");
    int want = in_spread == 0 ? in_default : in_spread < 2 ? 2 : in_spread > 4096 ? 4096 : in_spread;
    ASSERT(got == want, "post: the spread is clamped to 2..4096 and decoded unchanged");
    ASSERT((int)tg_index_extract_spread(e, 0) == in_ix, "post: decoding without asking for the spread");
    tg_env_set_index_spread(in_set);
    ASSERT(tg_env_get_index_spread() == (in_set >= 2 && in_set <= 4096 ? in_set : in_default), "post: an out-of-range default spread changes nothing");
    ASSUME(in_mode == TG_NONE || in_mode == TG_NATURAL || in_mode == TG_YSTRIPES);
    default_index = (enum tg_index)in_mode;
    int in_k;
    tg_env_set_index((enum tg_index)in_k);
    ASSERT((int)tg_env_get_default_index() == (in_k == TG_NONE || in_k == TG_NATURAL || in_k == TG_YSTRIPES ? in_k : in_mode), "post: an unknown default kind changes nothing");
    REACH(in_spread == 5000, "clamped"); REACH(in_spread == -3, "low"); REACH(in_set == 4097, "ignored"); REACH(in_k == 77, "unknown");
}
