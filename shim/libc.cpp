// C library functions, as bitcode, for symbolic execution
#include <cstddef>
extern "C" {
__attribute__((used, noinline)) size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
__attribute__((used, noinline)) void *memchr(const void *p, int c, size_t n) { const unsigned char *s = (const unsigned char *)p; for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void *)(s + i); return nullptr; }
__attribute__((used, noinline)) int memcmp(const void *a, const void *b, size_t n) { const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b; for (size_t i = 0; i < n; i++) { if (x[i] < y[i]) return -1; if (x[i] > y[i]) return 1; } return 0; }
__attribute__((used, noinline)) int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
__attribute__((used, noinline)) int strcmp(const char *a, const char *b) { size_t i = 0; for (;; i++) { unsigned char x = a[i], y = b[i]; if (x < y) return -1; if (x > y) return 1; if (!x) return 0; } }
__attribute__((used, noinline)) char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return nullptr; } }
}
