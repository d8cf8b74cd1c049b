/* Runs a script of C API calls, so that what they yield can be compared with what the programs yield. */
#include "cg3.h"
#include <stdlib.h>
#include <string.h>
#include <wchar.h>
#include <locale.h>

#define MAXN 16
static cg3_grammar* grammars[MAXN];
static cg3_applicator* apps[MAXN];
static int binary[MAXN];
static cg3_sentence* sents[MAXN];
static unsigned turn = 0;
static int textforms = 0;

static char* slurp(const char* fn, size_t* n) {
	FILE* f = fopen(fn, "rb");
	if (!f) { fprintf(stderr, "DRIVER: no %s\n", fn); exit(90); }
	fseek(f, 0, SEEK_END);
	*n = (size_t)ftell(f);
	fseek(f, 0, SEEK_SET);
	char* b = malloc(*n + 1);
	if (fread(b, 1, *n, f) != *n) exit(90);
	b[*n] = 0;
	fclose(f);
	return b;
}

static void spew(const char* fn, const char* b, size_t n) {
	FILE* f = fopen(fn, "wb");
	if (fwrite(b, 1, n, f) != n) exit(90);
	fclose(f);
}

/* UTF-8 to code points, written independently of the library */
static size_t decode(const char* s, uint32_t* o) {
	const unsigned char* p = (const unsigned char*)s;
	size_t n = 0;
	while (*p) {
		uint32_t c = *p++;
		int k = c >= 0xF0 ? 3 : c >= 0xE0 ? 2 : c >= 0xC0 ? 1 : 0;
		if (k) c &= 0x3F >> k;
		while (k--) c = (c << 6) | (*p++ & 0x3F);
		o[n++] = c;
	}
	o[n] = 0;
	return n;
}

static size_t to16(const uint32_t* s, uint16_t* o) {
	size_t n = 0;
	for (; *s; ++s) {
		if (*s >= 0x10000) {
			o[n++] = (uint16_t)(0xD800 + ((*s - 0x10000) >> 10));
			o[n++] = (uint16_t)(0xDC00 + ((*s - 0x10000) & 0x3FF));
		}
		else {
			o[n++] = (uint16_t)*s;
		}
	}
	o[n] = 0;
	return n;
}

static cg3_tag* mktag(cg3_applicator* a, const char* s) {
	uint32_t b[4096];
	uint16_t h[8192];
	wchar_t w[4096];
	size_t i, n = decode(s, b);
	switch (turn++ % 4) {
	case 0: return cg3_tag_create_u8(a, s);
	case 1: return cg3_tag_create_u32(a, b);
	case 2: to16(b, h); return cg3_tag_create_u16(a, h);
	default:
		for (i = 0; i <= n; ++i) w[i] = (wchar_t)b[i];
		return cg3_tag_create_w(a, w);
	}
}

static void outtag(FILE* o, cg3_tag* t) {
	char s[16384];
	uint32_t b[4096];
	uint16_t h[8192];
	size_t i;
	strncpy(s, cg3_tag_gettext_u8(t), sizeof(s) - 1);
	s[sizeof(s) - 1] = 0;
	size_t n = decode(s, b);
	const uint32_t* x = cg3_tag_gettext_u32(t);
	if (memcmp(x, b, (n + 1) * sizeof(uint32_t))) fprintf(o, "!u32 ");
	const uint16_t* y = cg3_tag_gettext_u16(t);
	size_t m = to16(b, h);
	if (memcmp(y, h, (m + 1) * sizeof(uint16_t))) fprintf(o, "!u16 ");
	const wchar_t* z = cg3_tag_gettext_w(t);
	for (i = 0; i <= n; ++i) {
		if ((uint32_t)z[i] != b[i]) { fprintf(o, "!w "); break; }
	}
	++textforms;
	fprintf(o, "%s", s);
}

static void outreading(FILE* o, cg3_reading* r, const char* kind) {
	while (r) {
		fprintf(o, "%s", kind);
		for (size_t i = 0, e = cg3_reading_numtags(r); i < e; ++i) {
			fprintf(o, "\t");
			outtag(o, cg3_reading_gettag(r, i));
		}
		fprintf(o, "\n");
		fprintf(o, "T");
		for (size_t i = 0, e = cg3_reading_numtraces(r); i < e; ++i) {
			fprintf(o, " %u", cg3_reading_gettrace(r, i));
		}
		fprintf(o, "\n");
		kind = "S";
		r = cg3_reading_numsubreadings(r) ? cg3_reading_getsubreading(r, 1) : NULL;
	}
}

static void dump(FILE* o, cg3_sentence* s) {
	for (size_t i = 0, e = cg3_sentence_numcohorts(s); i < e; ++i) {
		cg3_cohort* c = cg3_sentence_getcohort(s, i);
		uint32_t ds = 0, dp = 0;
		cg3_cohort_getdependency(c, &ds, &dp);
		fprintf(o, "C %u %u %u ", cg3_cohort_getid(c), ds, dp);
		outtag(o, cg3_cohort_getwordform(c));
		fprintf(o, "\n");
		for (size_t j = 0, f = cg3_cohort_numreadings(c); j < f; ++j) {
			outreading(o, cg3_cohort_getreading(c, j), "R");
		}
		for (size_t j = 0, f = cg3_cohort_numdelreadings(c); j < f; ++j) {
			outreading(o, cg3_cohort_getdelreading(c, j), "D");
		}
	}
}

static cg3_sentence* build(cg3_applicator* a, const char* fn) {
	size_t n;
	char* b = slurp(fn, &n);
	cg3_sentence* s = cg3_sentence_new(a);
	cg3_cohort* c = NULL;
	cg3_reading *top = NULL, *r = NULL;
	for (char* l = strtok(b, "\n"); l; l = strtok(NULL, "\n")) {
		char k = l[0];
		char* p = l + 2;
		if ((k == 'C' || k == 'R') && top) {
			cg3_cohort_addreading(c, top);
			top = NULL;
		}
		if (k == 'C') {
			if (c) cg3_sentence_addcohort(s, c);
			c = cg3_cohort_create(s);
			cg3_cohort_setwordform(c, mktag(a, p));
		}
		else if (k == 'P') {
			unsigned ds, dp;
			sscanf(p, "%u %u", &ds, &dp);
			cg3_cohort_setdependency(c, ds, dp);
		}
		else {
			cg3_reading* q;
			if (k == 'R') {
				q = top = cg3_reading_create(c);
			}
			else {
				q = cg3_subreading_create(top);
				cg3_reading_setsubreading(r, q);
			}
			r = q;
			while (p && *p) {
				char* t = strchr(p, '\t');
				if (t) *t++ = 0;
				if (!cg3_reading_addtag(r, mktag(a, p))) { fprintf(stderr, "DRIVER: addtag %s\n", p); exit(91); }
				p = t;
			}
		}
	}
	if (top) cg3_cohort_addreading(c, top);
	if (c) cg3_sentence_addcohort(s, c);
	free(b);
	return s;
}

int main(int argc, char* argv[]) {
	char l[4096], c[32], x[1024], y[1024];
	unsigned i, j, k;
	(void)argc;
	setlocale(LC_ALL, "C.UTF-8");
	if (!cg3_init(stdin, stdout, stderr)) return 92;
	FILE* f = fopen(argv[1], "r");
	while (fgets(l, sizeof(l), f)) {
		if (sscanf(l, "%31s", c) != 1) continue;
		if (!strcmp(c, "grammar") && sscanf(l, "%*s %u %1023s", &i, x) == 2) {
			if (!(grammars[i] = cg3_grammar_load(x))) { fprintf(stderr, "DRIVER: refused\n"); return 93; }
		}
		else if (!strcmp(c, "grammarbuf") && sscanf(l, "%*s %u %1023s", &i, x) == 2) {
			size_t n;
			char* b = slurp(x, &n);
			if (!(grammars[i] = cg3_grammar_load_buffer(b, n))) { fprintf(stderr, "DRIVER: refused\n"); return 93; }
			free(b);
		}
		else if (!strcmp(c, "app") && sscanf(l, "%*s %u %u %u", &i, &j, &k) == 3) {
			binary[i] = (int)k;
			apps[i] = k ? cg3_applicator_create_binary(grammars[j]) : cg3_applicator_create(grammars[j]);
		}
		else if (!strcmp(c, "mwe") && sscanf(l, "%*s %u", &i) == 1) {
			apps[i] = cg3_mwesplitapplicator_create();
		}
		else if (!strcmp(c, "flags") && sscanf(l, "%*s %u %u", &i, &j) == 2) {
			cg3_applicator_setflags(apps[i], j);
		}
		else if (!strcmp(c, "sections") && sscanf(l, "%*s %u %u", &i, &j) == 2) {
			uint32_t n = j;
			cg3_applicator_setoption(apps[i], CG3O_SECTIONS, &n);
		}
		else if (!strcmp(c, "sectext") && sscanf(l, "%*s %u %1023s", &i, x) == 2) {
			cg3_applicator_setoption(apps[i], CG3O_SECTIONS_TEXT, x);
		}
		else if (!strcmp(c, "text") && sscanf(l, "%*s %u %1023s %1023s", &i, x, y) == 3) {
			cg3_run_grammar_on_text_fns(apps[i], x, y);
		}
		else if (!strcmp(c, "buffer") && sscanf(l, "%*s %u %1023s %1023s", &i, x, y) == 3) {
			size_t n;
			char* b = slurp(x, &n);
			size_t m = n * 50 + 4000000;
			char* o = malloc(m);
			m = binary[i] ? cg3_run_grammar_on_buffer_binary(apps[i], b, n, o, m) : cg3_run_grammar_on_buffer(apps[i], b, n, o, m);
			spew(y, o, m);
			free(o);
			free(b);
		}
		else if (!strcmp(c, "build") && sscanf(l, "%*s %u %u %1023s", &i, &j, x) == 3) {
			sents[i] = build(apps[j], x);
		}
		else if (!strcmp(c, "copy") && sscanf(l, "%*s %u %u %u", &i, &j, &k) == 3) {
			sents[i] = cg3_sentence_copy(sents[j], apps[k]);
		}
		else if (!strcmp(c, "run") && sscanf(l, "%*s %u %u", &i, &j) == 2) {
			cg3_sentence_runrules(apps[j], sents[i]);
		}
		else if (!strcmp(c, "dump") && sscanf(l, "%*s %u %1023s", &i, x) == 2) {
			FILE* o = fopen(x, "w");
			dump(o, sents[i]);
			fclose(o);
		}
		else if (!strcmp(c, "sfree") && sscanf(l, "%*s %u", &i) == 1) {
			cg3_sentence_free(sents[i]);
		}
		else if (!strcmp(c, "afree") && sscanf(l, "%*s %u", &i) == 1) {
			if (binary[i]) cg3_applicator_free_binary(apps[i]); else cg3_applicator_free(apps[i]);
		}
		else if (!strcmp(c, "gfree") && sscanf(l, "%*s %u", &i) == 1) {
			cg3_grammar_free(grammars[i]);
		}
		else if (!strcmp(c, "conv") && sscanf(l, "%*s %u %u %1023s %1023s", &i, &j, x, y) == 4) {
			cg3_sconverter* v = cg3_sconverter_create((cg3_sformat)i, (cg3_sformat)j);
			cg3_sconverter_run_fns(v, x, y);
			cg3_sconverter_free(v);
		}
		else if (!strcmp(c, "detect") && sscanf(l, "%*s %1023s", x) == 1) {
			size_t n;
			char* b = slurp(x, &n);
			printf("detect %d %d\n", (int)cg3_detect_sformat(x), (int)cg3_detect_sformat_buffer(b, n));
			free(b);
		}
		else {
			fprintf(stderr, "DRIVER: bad line %s", l);
			return 94;
		}
	}
	fclose(f);
	cg3_cleanup();
	printf("done %d\n", textforms);
	return 0;
}
