/* Dumps ICU's properties of all code points, run-length coded:
   one line "name start value" per run.  cc icu.c -licuuc */
#include <stdio.h>
#include <string.h>
#include <unicode/uchar.h>
#include <unicode/uscript.h>
#include <unicode/utypes.h>
#include <unicode/unorm2.h>
#include <unicode/ustring.h>
#include <unicode/ucasemap.h>
#include <unicode/stringoptions.h>
#define RUNS(name, expr) do { long long last = 0; int first = 1; \
  for (UChar32 c = 0; c <= 0x10FFFF; ++c) { long long v = (expr); \
    if (first || v != last) { printf("%s %d %lld\n", name, c, v); last = v; first = 0; } } } while (0)
static long long age(UChar32 c) { UVersionInfo v; u_charAge(c, v); return v[0] * 100 + v[1]; }
static void sparse(const char *k, const char *n, UChar32 c, const UChar *b, int32_t l) {
  int32_t i = 0; UChar32 d; if (k[0] == 'c') { U16_NEXT(b, i, l, d); if (i == l && d == c) return; i = 0; }
  printf("@%s %s %X", k, n, c); while (i < l) { U16_NEXT(b, i, l, d); printf(" %X", d); } printf("\n"); }
static int32_t toTitle(UChar *b, const UChar *s, int32_t n) { UErrorCode e = U_ZERO_ERROR;
  static UCaseMap *m; if (!m) m = ucasemap_open("", U_TITLECASE_WHOLE_STRING | U_TITLECASE_NO_BREAK_ADJUSTMENT, &e);
  int32_t l = ucasemap_toTitle(m, b, 16, s, n, &e); if (U_FAILURE(e)) { fprintf(stderr, "title %s\n", u_errorName(e)); return 0; } return l; }
int main(void) {
  UErrorCode e;
  printf("#icu %s unicode %s\n", U_ICU_VERSION, U_UNICODE_VERSION);
  for (int p = 0; p < 75; ++p) { const char *n = u_getPropertyName(p, U_SHORT_PROPERTY_NAME); char b[80];
    const char *l = u_getPropertyName(p, U_LONG_PROPERTY_NAME);
    if (!l) continue; sprintf(b, "bin.%s", l); (void)n; RUNS(b, u_hasBinaryProperty(c, p)); }
  for (int p = UCHAR_INT_START; p < 0x1019; ++p) { const char *l = u_getPropertyName(p, U_LONG_PROPERTY_NAME); char b[80];
    if (!l) continue; sprintf(b, "int.%s", l); RUNS(b, u_getIntPropertyValue(c, p)); }
  RUNS("age", age(c));
  RUNS("mirror", (long long)u_charMirror(c) - c); RUNS("bracket", (long long)u_getBidiPairedBracket(c) - c);
  RUNS("lower", (long long)u_tolower(c) - c); RUNS("upper", (long long)u_toupper(c) - c); RUNS("title", (long long)u_totitle(c) - c);
  RUNS("digit", u_charDigitValue(c));
  { double last = 0; int first = 1; for (UChar32 c = 0; c <= 0x10FFFF; ++c) { double v = u_getNumericValue(c);
      if (first || v != last) { printf("nv %d %.17g\n", c, v); last = v; first = 0; } } }
#define F(n) RUNS("fn." #n, (u_##n(c) ? 1 : 0))
  F(islower); F(isupper); F(istitle); F(isdigit); F(isxdigit); F(isalpha); F(isalnum); F(isdefined); F(isbase); F(iscntrl);
  F(isISOControl); F(isspace); F(isJavaSpaceChar); F(isWhitespace); F(isblank); F(isprint); F(isgraph); F(ispunct);
  F(isIDStart); F(isIDPart); F(isIDIgnorable); F(isJavaIDStart); F(isJavaIDPart); F(isUAlphabetic); F(isUWhiteSpace); F(isMirrored);
  /* sparse: decompositions and full case mappings, as hex code points */
  static const char *norms[] = {"nfc", "nfkc", "nfkc_cf", "uts46"};
  for (int i = 0; i < 4; ++i) { e = U_ZERO_ERROR; const UNormalizer2 *n = unorm2_getInstance(NULL, norms[i], UNORM2_COMPOSE, &e);
    if (U_FAILURE(e)) { fprintf(stderr, "no %s\n", norms[i]); continue; }
    for (UChar32 c = 0; c <= 0x10FFFF; ++c) for (int raw = 0; raw < 2; ++raw) { UChar b[64]; e = U_ZERO_ERROR;
      int32_t l = raw ? unorm2_getRawDecomposition(n, c, b, 64, &e) : unorm2_getDecomposition(n, c, b, 64, &e);
      if (l < 0) continue; sparse(raw ? "raw" : "full", norms[i], c, b, l); } }
  for (UChar32 c = 0; c <= 0x10FFFF; ++c) { UChar s[2], b[16]; int32_t n = 0, l; if (c >= 0xD800 && c <= 0xDFFF) continue;
    U16_APPEND_UNSAFE(s, n, c);
    e = U_ZERO_ERROR; l = u_strToLower(b, 16, s, n, "", &e); sparse("case", "lower", c, b, l);
    e = U_ZERO_ERROR; l = u_strToUpper(b, 16, s, n, "", &e); sparse("case", "upper", c, b, l);
    e = U_ZERO_ERROR; l = toTitle(b, s, n); sparse("case", "title", c, b, l); }
  for (UChar32 c = 0; c <= 0x10FFFF; ++c) { char b[200]; int32_t l; e = U_ZERO_ERROR;
    l = u_charName(c, U_UNICODE_CHAR_NAME, b, 200, &e); if (l) printf("@uname %X %s\n", c, b); e = U_ZERO_ERROR;
    l = u_charName(c, U_CHAR_NAME_ALIAS, b, 200, &e); if (l) printf("@alias %X %s\n", c, b); e = U_ZERO_ERROR;
    l = u_charName(c, U_EXTENDED_CHAR_NAME, b, 200, &e); if (l && b[0] == '<') { b[strcspn(b, "-")] = 0; } }
  /* names of enumerated values */
  for (int p = UCHAR_INT_START; p < 0x1019; ++p) { const char *l = u_getPropertyName(p, U_LONG_PROPERTY_NAME); if (!l) continue;
    for (int v = u_getIntPropertyMinValue(p); v <= u_getIntPropertyMaxValue(p); ++v) {
      const char *s = u_getPropertyValueName(p, v, U_SHORT_PROPERTY_NAME), *g = u_getPropertyValueName(p, v, U_LONG_PROPERTY_NAME);
      if (g || s) printf("@name %s %d %s %s\n", l, v, s ? s : "-", g ? g : "-"); } }
  return 0; }
