// Engine-only C library string functions (compiled with -fno-builtin).
typedef unsigned long size_t;
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char *a, const char *b) {
  for (;; a++, b++) {
    if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1;
    if (!*a) return 0;
  }
}
int strncmp(const char *a, const char *b, size_t n) {
  for (; n; a++, b++, n--) {
    if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1;
    if (!*a) return 0;
  }
  return 0;
}
char *strncpy(char *d, const char *s, size_t n) {
  size_t i = 0;
  for (; i < n && s[i]; i++) d[i] = s[i];
  for (; i < n; i++) d[i] = 0;
  return d;
}
char *strcpy(char *d, const char *s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
void *memchr(const void *p, int c, size_t n) {
  const unsigned char *q = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) if (q[i] == (unsigned char)c) return (void *)(q + i);
  return 0;
}
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *strstr(const char *s, const char *t) { size_t n = strlen(t); for (;; s++) { if (!strncmp(s, t, n)) return (char *)s; if (!*s) return 0; } }
size_t strspn(const char *s, const char *t) { size_t n = 0; while (s[n] && strchr(t, s[n])) n++; return n; }
size_t strcspn(const char *s, const char *t) { size_t n = 0; while (s[n] && !strchr(t, s[n])) n++; return n; }
char *strncat(char *d, const char *s, size_t n) { char *e = d + strlen(d); size_t i = 0; while (i < n && s[i]) e[i] = s[i], i++; e[i] = 0; return d; }
void *malloc(size_t);
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *d = malloc(n); for (size_t i = 0; i < n; i++) d[i] = s[i]; return d; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
static int number(const char *s, char **e, int base, int *neg, unsigned long *out) {
  const char *p = s;
  unsigned long v = 0;
  int any = 0, over = 0;
  while (isspace(*p)) p++;
  *neg = 0;
  if (*p == '+' || *p == '-') *neg = *p++ == '-';
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { p += 2; base = 16; }
  else if (base == 0) base = *p == '0' ? 8 : 10;
  for (;; p++) {
    int d = isdigit(*p) ? *p - '0' : isalpha(*p) ? tolower(*p) - 'a' + 10 : 99;
    if (d >= base) break;
    any = 1;
    if (v > (~0ul - (unsigned long)d) / (unsigned long)base) over = 1;
    v = v * (unsigned long)base + (unsigned long)d;
  }
  if (e) *e = (char *)(any ? p : s);
  *out = v;
  return over;
}
int *__errno_location(void);
long strtol(const char *s, char **e, int base) {
  int neg;
  unsigned long v;
  int over = number(s, e, base, &neg, &v);
  if (over || v > 0x7fffffffffffffffull + (unsigned)neg) { *__errno_location() = 34; return neg ? -0x7fffffffffffffffl - 1 : 0x7fffffffffffffffl; }
  return neg ? (long)(0 - v) : (long)v;
}
unsigned long strtoul(const char *s, char **e, int base) {
  int neg;
  unsigned long v;
  if (number(s, e, base, &neg, &v)) { *__errno_location() = 34; return ~0ul; }
  return neg ? 0 - v : v;
}
long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); }
long __isoc23_strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
long atol(const char *s) { return strtol(s, 0, 10); }
int abs(int v) { return v < 0 ? -v : v; }
// output to the terminal is not observed
int printf(const char *f, ...) { return 0; }
int fprintf(void *o, const char *f, ...) { return 0; }
int puts(const char *s) { return 1; }
int putchar(int c) { return c; }
int fflush(void *o) { return 0; }
int fputs(const char *s, void *o) { return 1; }
int fputc(int c, void *o) { return c; }
size_t fwrite(const void *p, size_t n, size_t m, void *o) { return m; }
char *strerror(int e) { return "an error"; }
void perror(const char *s) {}
void *stdout, *stderr;
size_t strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }

// type descriptors of fundamental types live in libsupc++
struct rt_typeinfo { const void *vt; const char *name; };
extern char _ZTVN10__cxxabiv123__fundamental_type_infoE[];
#define TI(c) struct rt_typeinfo _ZTI##c = {_ZTVN10__cxxabiv123__fundamental_type_infoE + 16, #c}; struct rt_typeinfo _ZTIP##c = {_ZTVN10__cxxabiv123__fundamental_type_infoE + 16, "P" #c}; struct rt_typeinfo _ZTIPK##c = {_ZTVN10__cxxabiv123__fundamental_type_infoE + 16, "PK" #c};
TI(v) TI(b) TI(c) TI(a) TI(h) TI(s) TI(t) TI(i) TI(j) TI(l) TI(m) TI(x) TI(y) TI(f) TI(d) TI(e) TI(w) TI(Dn)
int sym_thread_self(void);
int *__errno_location(void) { static int e[64]; return &e[sym_thread_self() & 63]; }
