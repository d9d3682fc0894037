// ---- libc -----------------------------------------------------------------
#include <stddef.h>
typedef unsigned wint_t;

size_t strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
int    strcmp(const char* a, const char* b) {
    for (;; ++a, ++b) {
        if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1;
        if (!*a) return 0;
    }
}
int strncmp(const char* a, const char* b, size_t n) {
    for (; n; --n, ++a, ++b) {
        if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1;
        if (!*a) return 0;
    }
    return 0;
}
void* memchr(const void* s, int c, size_t n) {
    const unsigned char* p = (const unsigned char*)s;
    for (size_t i = 0; i < n; ++i) if (p[i] == (unsigned char)c) return (void*)(p + i);
    return 0;
}
char* strchr(const char* s, int c) {
    for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return 0; }
}
int isdigit(int c) { return ((unsigned)c - '0') < 10; }
int islower(int c) { return ((unsigned)c - 'a') < 26; }
int isupper(int c) { return ((unsigned)c - 'A') < 26; }
int isalpha(int c) { return (((unsigned)c | 32) - 'a') < 26; }
int isalnum(int c) { return ((((unsigned)c | 32) - 'a') < 26) | (((unsigned)c - '0') < 10); }
int isspace(int c) { return (c == ' ') | (((unsigned)c - '\t') < 5); }
int isblank(int c) { return (c == ' ') | (c == '\t'); }
int isprint(int c) { return ((unsigned)c - 0x20) < 0x5f; }
int isgraph(int c) { return ((unsigned)c - 0x21) < 0x5e; }
int iscntrl(int c) { return ((unsigned)c < 0x20) | (c == 0x7f); }
int ispunct(int c) { return isgraph(c) & !isalnum(c); }
int isxdigit(int c) { return (((unsigned)c - '0') < 10) | ((((unsigned)c | 32) - 'a') < 6); }
int tolower(int c) { return (((unsigned)c - 'A') < 26) ? c | 32 : c; }
int toupper(int c) { return (((unsigned)c - 'a') < 26) ? c & ~32 : c; }
int iswspace(wint_t c) { return c < 128 ? isspace((int)c) : 0; }
char* getenv(const char*) { return 0; }
long strtol(const char* s, char** e, int base) {
    const char* p = s;
    while (isspace((unsigned char)*p)) ++p;
    int neg = 0;
    if (*p == '-' || *p == '+') neg = *p++ == '-';
    long v = 0; const char* st = p;
    for (;; ++p) {
        int d = isdigit((unsigned char)*p) ? *p - '0' : isalpha((unsigned char)*p) ? tolower(*p) - 'a' + 10 : 99;
        if (d >= base) break;
        v = v * base + d;
    }
    if (e) *e = (char*)(p == st ? s : p);
    return neg ? -v : v;
}
long long strtoll(const char* s, char** e, int base) { return strtol(s, e, base); }
unsigned long strtoul(const char* s, char** e, int base) { return (unsigned long)strtol(s, e, base); }
unsigned long long strtoull(const char* s, char** e, int base) { return (unsigned long long)strtol(s, e, base); }
int atoi(const char* s) { return (int)strtol(s, 0, 10); }
long __isoc23_strtol(const char* s, char** e, int base) { return strtol(s, e, base); }
long long __isoc23_strtoll(const char* s, char** e, int base) { return strtol(s, e, base); }
unsigned long __isoc23_strtoul(const char* s, char** e, int base) { return (unsigned long)strtol(s, e, base); }
unsigned long long __isoc23_strtoull(const char* s, char** e, int base) { return (unsigned long long)strtol(s, e, base); }

#include <locale.h>
struct lconv* localeconv(void) {
    static struct lconv c = {.decimal_point = ".", .thousands_sep = "", .grouping = ""};
    return &c;
}
