/* fnmatch for patterns of literals, '*' and '?' (no brackets, flags without effect on them).
 * Only under CBMC; natively libc's own is used. */
#ifdef VP_CBMC
#ifndef FNM_MAX
#define FNM_MAX 7
#endif
int fnmatch(const char *p, const char *s, int flags)
{
    _Bool cur[FNM_MAX + 1], nxt[FNM_MAX + 1];
    int n = 0, i, j;
    while( s[n] && n < FNM_MAX ) ++n;
    __CPROVER_assume(s[n] == 0);
    for( j = 0; j <= FNM_MAX; ++j ) cur[j] = (j == 0);
    for( i = 0; p[i]; ++i )
    {
        if( p[i] == '*' ) { nxt[0] = cur[0]; for( j = 1; j <= FNM_MAX; ++j ) nxt[j] = (nxt[j - 1] || cur[j]) && j <= n; }
        else { nxt[0] = 0; for( j = 1; j <= FNM_MAX; ++j ) nxt[j] = j <= n && cur[j - 1] && (p[i] == '?' || p[i] == s[j - 1]); }
        for( j = 0; j <= FNM_MAX; ++j ) cur[j] = nxt[j];
    }
    return cur[n] ? 0 : 1;
}
#endif
