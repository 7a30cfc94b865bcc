/* explicit workspace of an exact size, filled with NaN, with guard bytes behind it */
static armas_wbuf_t wk_b; static void *wk_mem;
static armas_wbuf_t *work(size_t need)
{
    wk_mem = malloc(need + 64); memset(wk_mem, 0xff, need); memset((char *)wk_mem + need, 0x5a, 64);
    wk_b = (armas_wbuf_t){.buf = wk_mem, .offset = 0, .bytes = need}; return &wk_b;
}
static void workdone(void)
{
    unsigned char *p = (unsigned char *)wk_mem + wk_b.bytes; mc_cmp(1);
    for (int i = 0; i < 64; i++) if (p[i] != 0x5a) { mc_fail("workspace-overrun", "byte %d behind a workspace of %zu bytes written", i, wk_b.bytes); break; }
    free(wk_mem); wk_mem = 0;
}
