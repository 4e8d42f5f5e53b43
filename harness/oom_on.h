/* the harness's own allocations do not fail */
#define malloc __real_malloc
#define calloc __real_calloc
#define realloc __real_realloc
#define strdup __real_strdup
#define strndup __real_strndup
#define abort __real_abort
