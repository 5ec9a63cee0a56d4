/* what a freestanding wasm32 build of the library and of wasm/main.c needs */
typedef __SIZE_TYPE__ sz;
void *memcpy(void *d, const void *s, sz n) { unsigned char *a = d; const unsigned char *b = s; while (n--) *a++ = *b++; return d; }
void *memmove(void *d, const void *s, sz n) {
    unsigned char *a = d; const unsigned char *b = s;
    if (a < b) while (n--) *a++ = *b++; else while (n--) a[n] = b[n];
    return d;
}
void *memset(void *d, int c, sz n) { unsigned char *a = d; while (n--) *a++ = (unsigned char)c; return d; }
int memcmp(const void *x, const void *y, sz n) { const unsigned char *a = x, *b = y; for (; n--; a++, b++) if (*a != *b) return *a - *b; return 0; }
sz strlen(const char *s) { sz n = 0; while (s[n]) n++; return n; }
