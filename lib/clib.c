/* Library functions the assembler does not use today: bodies for the abstract
   interpreter, in case an edit of the sources calls them.  Never run. */
typedef unsigned long size_t;
extern void *malloc(size_t);
extern size_t strlen(const char *);
extern void *memcpy(void *, const void *, size_t);
extern void *memset(void *, int, size_t);
extern int tolower(int);

char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *index(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *rindex(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *strcat(char *d, const char *s) { char *r = d; while (*d) d++; while ((*d++ = *s++)) ; return r; }
char *strncat(char *d, const char *s, size_t n) { char *r = d; while (*d) d++; while (n && *s) { *d++ = *s++; n--; } *d = 0; return r; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) { d++; s++; } return d; }
size_t strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
void *memchr(const void *p, int c, size_t n) { const char *s = p; while (n--) { if (*s == (char)c) return (void *)s; s++; } return 0; }
int memcmp(const void *p, const void *q, size_t n)
{
  const unsigned char *a = p, *b = q;
  for (; n; n--, a++, b++) if (*a != *b) return *a < *b ? -1 : 1;
  return 0;
}
int bcmp(const void *p, const void *q, size_t n)
{
  const unsigned char *a = p, *b = q;
  for (; n; n--, a++, b++) if (*a != *b) return 1;
  return 0;
}
int strcasecmp(const char *a, const char *b)
{
  for (;; a++, b++) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y) return x < y ? -1 : 1; if (!x) return 0; }
}
int strncasecmp(const char *a, const char *b, size_t n)
{
  for (; n; a++, b++, n--) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y) return x < y ? -1 : 1; if (!x) return 0; }
  return 0;
}
size_t strspn(const char *s, const char *set)
{
  size_t n = 0;
  for (; s[n]; n++) { const char *q = set; while (*q && *q != s[n]) q++; if (!*q) break; }
  return n;
}
size_t strcspn(const char *s, const char *set)
{
  size_t n = 0;
  for (; s[n]; n++) { const char *q = set; while (*q && *q != s[n]) q++; if (*q) break; }
  return n;
}
char *strpbrk(const char *s, const char *set)
{
  for (; *s; s++) { const char *q = set; while (*q && *q != *s) q++; if (*q) return (char *)s; }
  return 0;
}
char *strstr(const char *s, const char *t)
{
  for (;; s++) { size_t i = 0; while (t[i] && s[i] == t[i]) i++; if (!t[i]) return (char *)s; if (!*s) return 0; }
}
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p = malloc(n); memcpy(p, s, n); return p; }
void *calloc(size_t n, size_t z) { void *p = malloc(n * z); memset(p, 0, n * z); return p; }
void free(void *p) { }
int isblank(int c) { return c == ' ' || c == '\t'; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int ispunct(int c) { return (c > 32 && c < 48) || (c > 57 && c < 65) || (c > 90 && c < 97) || (c > 122 && c < 127); }
int lib_abs32(int x) { return x < 0 ? -x : x; }
long lib_abs64(long x) { return x < 0 ? -x : x; }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
static int digit(int c, int base)
{
  int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99;
  return d < base ? d : -1;
}
unsigned long strtoul(const char *s, char **end, int base)
{
  const char *b = s;
  unsigned long v = 0;
  int neg = 0, any = 0, over = 0, d;
  while (*s == ' ' || (*s >= 9 && *s <= 13)) s++;
  if (*s == '+' || *s == '-') neg = *s++ == '-';
  if ((base == 0 || base == 16) && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') && digit(s[2], 16) >= 0) { s += 2; base = 16; }
  if (base == 0) base = *s == '0' ? 8 : 10;
  while ((d = digit(*s, base)) >= 0) { if (v > (~0UL - d) / base) over = 1; v = v * base + d; any = 1; s++; }
  if (end) *end = (char *)(any ? s : b);
  return over ? ~0UL : neg ? -v : v;
}
long strtol(const char *s, char **end, int base)
{
  const char *b = s;
  unsigned long v = 0;
  int neg = 0, any = 0, over = 0, d;
  while (*s == ' ' || (*s >= 9 && *s <= 13)) s++;
  if (*s == '+' || *s == '-') neg = *s++ == '-';
  if ((base == 0 || base == 16) && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') && digit(s[2], 16) >= 0) { s += 2; base = 16; }
  if (base == 0) base = *s == '0' ? 8 : 10;
  while ((d = digit(*s, base)) >= 0) { if (v > (0x7fffffffffffffffUL - d) / base) over = 1; v = v * base + d; any = 1; s++; }
  if (end) *end = (char *)(any ? s : b);
  if (over) return neg ? (long)0x8000000000000000UL : 0x7fffffffffffffffL;
  return neg ? -(long)v : (long)v;
}
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
long atol(const char *s) { return strtol(s, 0, 10); }
