/* C definitions of the C-library string functions, executed by the verifier in place of the external library */
#include <stddef.h>
#include <stdint.h>
size_t strlen(const char* s) { size_t n = 0; while (s[n] != 0) ++n; return n; }
int strcmp(const char* a, const char* b) { size_t i = 0; while (a[i] != 0 && a[i] == b[i]) ++i; return (int)(unsigned char)a[i] - (int)(unsigned char)b[i]; }
int strncmp(const char* a, const char* b, size_t n) { size_t i = 0; while (i < n) { if (a[i] != b[i]) return (int)(unsigned char)a[i] - (int)(unsigned char)b[i]; if (a[i] == 0) return 0; ++i; } return 0; }
int memcmp(const void* a, const void* b, size_t n) { const unsigned char* x = a; const unsigned char* y = b; size_t i = 0; while (i < n) { if (x[i] != y[i]) return (int)x[i] - (int)y[i]; ++i; } return 0; }
int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
char* strcpy(char* d, const char* s) { size_t i = 0; while ((d[i] = s[i]) != 0) ++i; return d; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; while (i < n && s[i] != 0) { d[i] = s[i]; ++i; } while (i < n) { d[i] = 0; ++i; } return d; }
char* strchr(const char* s, int c) { while (*s != (char) c) { if (*s == 0) return NULL; ++s; } return (char*) s; }
char* strrchr(const char* s, int c) { const char* r = NULL; do { if (*s == (char) c) r = s; } while (*s++ != 0); return (char*) r; }
char* strstr(const char* h, const char* n) { size_t i = 0; for (;;) { size_t j = 0; while (n[j] != 0 && h[i + j] == n[j]) ++j; if (n[j] == 0) return (char*) h + i; if (h[i] == 0) return NULL; ++i; } }
void* memchr(const void* s, int c, size_t n) { const unsigned char* p = s; size_t i = 0; while (i < n) { if (p[i] == (unsigned char) c) return (void*)(p + i); ++i; } return NULL; }
int tolower(int c) { return (c >= 'A' && c <= 'Z') ? c + 32 : c; }
int toupper(int c) { return (c >= 'a' && c <= 'z') ? c - 32 : c; }
int strcasecmp(const char* a, const char* b) { size_t i = 0; while (a[i] != 0 && tolower((unsigned char)a[i]) == tolower((unsigned char)b[i])) ++i; return tolower((unsigned char)a[i]) - tolower((unsigned char)b[i]); }
int isalpha(int c) { return ((c | 32) >= 'a') & ((c | 32) <= 'z') & (c > 0) & (c < 128); }
int isdigit(int c) { return (c >= '0') & (c <= '9'); }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isspace(int c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
int atoi(const char* s) { while (isspace((unsigned char)*s)) ++s; int neg = 0; if (*s == '-') { neg = 1; ++s; } else if (*s == '+') ++s; unsigned v = 0; while (isdigit((unsigned char)*s)) { v = v * 10u + (unsigned)(*s - '0'); ++s; } return neg ? (int)(0u - v) : (int) v; }
