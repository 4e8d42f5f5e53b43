/* code of the library follows */
#undef malloc
#undef calloc
#undef realloc
#undef strdup
#undef strndup
#undef abort
