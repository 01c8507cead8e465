/* preloaded along with libasan, which does not support RTLD_DEEPBIND (CasADi loads its plugins that way) */
#define _GNU_SOURCE
#include <dlfcn.h>

void *dlopen(const char *file, int mode)
{
    static void *(*next)(const char *, int);
    if (!next)
        *(void **) &next = dlsym(RTLD_NEXT, "dlopen");
    return next(file, mode & ~RTLD_DEEPBIND);
}
