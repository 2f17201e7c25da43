/*  Assumed contracts of the C library formatting functions, for units whose
 *    clauses do not depend on the text produced: the destination range must be
 *    valid, and afterwards holds some NUL-terminated string that fits.
 *    (Native runs use the real functions.)
 *    goto-instrument --dfcc appends its write-set argument after the variadic
 *    ones, so variadic stubs must not assign: the assigning part is not variadic.
 */
#ifndef STUB_STR_H
#define STUB_STR_H
#ifndef VP_NATIVE
static int vp_use(const char *f, ...) { return 0; }
static int vp_snprintf(char *s, size_t n)
{
    long r = vp_hid_();
    VP_ASSUME(r >= 0 && r <= 100000);
    VP_ASSERT(n == 0 || VP_W_OK(s, n), "formatted output range is valid");
    if (n > 0) s[(size_t) r < n ? (size_t) r : n - 1] = '\0';
    return (int) r;
}
/* some NUL at or after s, inside its object */
static size_t vp_strlen(const char *s)
{
    long r = vp_hid_();
    VP_ASSERT(VP_R_OK(s, 1), "string argument is valid");
    VP_ASSUME(r >= 0 && (size_t) r < __CPROVER_OBJECT_SIZE(s) - __CPROVER_POINTER_OFFSET(s));
    VP_ASSUME(s[r] == 0);
    return (size_t) r;
}
#define strlen(s)           vp_strlen(s)
#define snprintf(s,n,...)   (vp_use(__VA_ARGS__), vp_snprintf(s, n))
#define vsnprintf(s,n,f,v)  vp_snprintf(s, n)
static void *vp_keep_str_[] __attribute__((unused)) = { (void *) vp_snprintf, (void *) vp_use, (void *) vp_strlen };
#endif
#endif
