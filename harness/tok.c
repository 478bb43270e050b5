/* Translation target: arbitrary text through the real tokenizer into buffers
 * with known limits.  Runs under libFuzzer; every monitor that fails prints
 * "MONITOR <key>: <text>" and aborts, the sanitizers watch the memory.
 *
 * Input: byte 0 options (bits 0-2), without system (bit 3), tables sized for
 * the text (bit 4), few variables (bit 5); byte 1: lines as they come (0) or cut
 * at 100 characters (otherwise); then the text. */
#define _GNU_SOURCE
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>

#include "common.h"
#include "error.h"
#include "interpreter.h"
#include "label.h"
#include "program.h"
#include "ptc.h"
#include "sbc_blockalloc.h"
#include "system.h"
#include "tokens.h"
#include "vars.h"

#ifndef MAX_MEMORY
#define MAX_MEMORY (8*1024*1024)
#endif
struct display;
void init_display(struct ptc *p) { (void)p; }
void free_display(struct display *d) { (void)d; }

void cmd_clear(struct ptc *);
#define LINE 100
static struct ptc *P[2];
static unsigned long n_inputs, n_lines, n_code, n_errors, n_labels, n_strict, n_alone, n_exact;
static unsigned long err_seen[256];

static void fail(const char *key, const char *f, ...) {
	va_list ap;
	fprintf(stderr, "\nMONITOR %s: ", key);
	va_start(ap, f);
	vfprintf(stderr, f, ap);
	va_end(ap);
	fprintf(stderr, "\n");
	abort();
}
static void report(void) {
	char *path = getenv("TOK_STATS");
	if (!path) return;
	FILE *f = fopen(path, "w");
	if (!f) return;
	fprintf(f, "{\"inputs\":%lu,\"lines\":%lu,\"code_bytes\":%lu,\"error_lines\":%lu,\"labels\":%lu,\"strict_compared\":%lu,\"lines_alone\":%lu,\"exact_tables\":%lu,\"errors\":{", n_inputs, n_lines, n_code, n_errors, n_labels, n_strict, n_alone, n_exact);
	int first = 1;
	for (int i = 0; i < 256; ++i) if (err_seen[i]) { fprintf(f, "%s\"%d\":%lu", first ? "" : ",", i, err_seen[i]); first = 0; }
	fprintf(f, "}}\n");
	fclose(f);
}
int LLVMFuzzerInitialize(int *argc, char ***argv) {
	(void)argc; (void)argv;
	init_memory(MAX_MEMORY);
	P[0] = init_system(2048, 64, 1024, true);
	P[1] = init_system(16, 64, 1024, true);
	atexit(report);
	return 0;
}

/* one translation into fresh memory; the text is copied so that its end is the end of a block */
struct out { int err; struct bytecode bc; size_t cap; };
static struct out translate(const char *text, size_t n, int mode, int opts, unsigned char fill) {
	struct out o = {0};
	char *copy = malloc(n ? n : 1);
	memcpy(copy, text, n);
	struct program prg = {(idx)n, copy};
	struct ptc *p = mode & 8 ? NULL : P[mode >> 5 & 1];
	int lines = MAX_LINES, labels = 64;
	o.cap = 8 * n + 8192;   /* more than any text of this size can need */
	if (mode & 16) {
		/* the sizes launch_system uses for the editor */
		struct bytecode_params bp = calc_min_bytecode(&prg);
		o.cap = (size_t)bp.size;
		lines = bp.lines;
		labels = bp.labels;
		++n_exact;
	}
	if (p) {
		cmd_clear(p);
		p->exec.error = ERR_NONE;
		memset(p->exec.error_info, 0, sizeof p->exec.error_info);
	}
	o.bc.data = malloc(o.cap ? o.cap : 1);
	o.bc.line_length = malloc(lines ? (size_t)lines : 1);
	o.bc.labels.label_count = labels;
	/* the documented state of a new table is zero; its later state is what a translation left there */
	o.bc.labels.entry = labels ? calloc((size_t)labels, sizeof *o.bc.labels.entry) : NULL;
	if (o.cap) memset(o.bc.data, fill, o.cap);
	if (lines) memset(o.bc.line_length, fill, (size_t)lines);
	o.bc.size = fill;
	if (fill) for (int i = 0; i < labels; ++i) { memset(&o.bc.labels.entry[i], 'A' + i % 26, sizeof o.bc.labels.entry[i].name); o.bc.labels.entry[i].index = 1; }
	o.err = tokenize_full(&prg, &o.bc, p, opts);
	if (memcmp(copy, text, n)) fail("text", "the text was changed");
	if (p && !memchr(p->exec.error_info, 0, sizeof p->exec.error_info)) fail("info", "error_info is not terminated");
	free(copy);
	return o;
}
static void drop(struct out *o) { free(o->bc.data); free(o->bc.line_length); free(o->bc.labels.entry); }

static const char *err_name(int e) {
	/* every code has a message */
	return error_messages[e];
}
/* The code must be a sequence of whole instructions: the interpreter's own walk over it ends at its end. */
#define STOP 0xFF
static void walk(struct out *o, struct out *marked) {
	struct bytecode *m = &marked->bc;
	*m = o->bc;
	m->data = malloc(o->bc.size + 2);
	memcpy(m->data, o->bc.data, o->bc.size);
	m->data[o->bc.size] = STOP;
	m->data[o->bc.size + 1] = 0;
	m->size = o->bc.size + 2;
	idx at = bc_scan(*m, 0, STOP);
	if (at != o->bc.size) fail("walk", "walking over %u bytes of code ends at %u", (unsigned)o->bc.size, (unsigned)at);
	for (int i = 0; i < o->bc.labels.label_count; ++i) {
		struct label_line *l = &o->bc.labels.entry[i];
		if (!l->name[0]) continue;
		++n_labels;
		if (l->index > o->bc.size) fail("label", "label %.16s at %u of %u", l->name, (unsigned)l->index, (unsigned)o->bc.size);
		u8 old = m->data[l->index];
		m->data[l->index] = STOP;
		if (bc_scan(*m, 0, STOP) != l->index) fail("label", "label %.16s at %u is inside of an instruction", l->name, (unsigned)l->index);
		m->data[l->index] = old;
	}
	free(m->data);
}
/* first deferred error, or 0 */
static int first_error(struct out *o, int *count) {
	struct bytecode b = o->bc;
	int first = 0;
	for (idx at = 0; at < b.size; at += 2) {
		at = bc_scan(b, at, BC_ERROR);
		if (at >= b.size) break;
		int e = b.data[at + 1];
		if (!e) fail("error", "an error without a code");
		err_name(e)[0];
		err_seen[e]++;
		++*count;
		if (!first) first = e;
	}
	return first;
}
/* variables referred to by number must exist */
static void check_ids(struct out *o, struct ptc *p) {
	struct bytecode b = o->bc;
	for (idx at = 0; at < b.size; at += 2) {
		at = bc_scan(b, at, BC_VARIABLE_ID_SMALL);
		if (at >= b.size) break;
		unsigned id = b.data[at + 1];
		if (id >= p->vars.vars_max || p->vars.vars[id].type == VAR_EMPTY) fail("variable", "code refers to variable %u of %u", id, (unsigned)p->vars.vars_max);
	}
	for (idx at = 0; at < b.size; at += 4) {
		at = bc_scan(b, at, BC_VARIABLE_ID);
		if (at >= b.size) break;
		unsigned id = b.data[at + 1] | b.data[at + 2] << 8 | b.data[at + 3] << 16;
		if (id >= p->vars.vars_max || p->vars.vars[id].type == VAR_EMPTY) fail("variable", "code refers to variable %u of %u", id, (unsigned)p->vars.vars_max);
	}
}
static int same_labels(struct labels *a, struct labels *b) {
	for (int i = 0; i < a->label_count; ++i) {
		if (a->entry[i].name[0] != b->entry[i].name[0]) return 0;
		if (!a->entry[i].name[0]) continue;
		if (strncmp(a->entry[i].name, b->entry[i].name, 16) || a->entry[i].index != b->entry[i].index) return 0;
	}
	return 1;
}

int LLVMFuzzerTestOneInput(const uint8_t *in, size_t n) {
	if (n < 2) return 0;
	int mode = in[0], opts = mode & 7;
	size_t limit = in[1] % 4 ? LINE : 1 << 20;
	in += 2; n -= 2;
	if (n > 4000) n = 4000;
	/* lines, each with its end */
	char *text = malloc(n + n / LINE + 2);
	size_t len = 0, col = 0, lines = 0;
	for (size_t i = 0; i < n; ++i) {
		if (col == limit && in[i] != '\r') { text[len++] = '\r'; col = 0; ++lines; }
		text[len++] = (char)in[i];
		++col;
		if (in[i] == '\r') { col = 0; ++lines; }
	}
	if (col) { text[len++] = '\r'; ++lines; }
	++n_inputs;
	n_lines += lines;

	struct out a = translate(text, len, mode, opts, 0), m;
	if (a.err) {
		if (a.err < 0 || a.err > 255) fail("code", "result %d", a.err);
		err_name(a.err)[0];
		err_seen[a.err]++;
		if (mode & 8 && opts & ~1) {
			if (a.err != ERR_INVALID_OPTS) fail("opts", "options %d without system: %d", opts, a.err);
		} else if (!(opts & 4)) fail("code", "error %d although errors belong into the code", a.err);
	} else if (mode & 8 && opts & ~1) fail("opts", "options %d accepted without system", opts);
	struct out b = translate(text, len, mode, opts, 0xAA);
	if (a.err != b.err) fail("repeat", "result %d, then %d", a.err, b.err);
	if (!a.err) {
		if (a.bc.size > a.cap) fail("size", "%u bytes of code, %u expected at most", (unsigned)a.bc.size, (unsigned)a.cap);
		if (a.bc.size != b.bc.size || memcmp(a.bc.data, b.bc.data, a.bc.size)) fail("repeat", "the code depends on what was in its memory before");
		if (!same_labels(&a.bc.labels, &b.bc.labels)) fail("repeat", "the labels depend on what was in their table before");
		walk(&a, &m);
		if (opts & 2 && !(mode & 8)) check_ids(&b, P[mode >> 5 & 1]);
		int errors = 0, first = first_error(&a, &errors);
		n_code += a.bc.size;
		n_errors += (unsigned long)errors;
		if (opts & 4 && first) fail("strict", "strict translation left error %d in the code", first);
		if (!(opts & 4) && !(mode & 8)) {
			struct out s = translate(text, len, mode, opts | 4, 0);
			if (s.err != first) fail("strict", "first error %d, strict result %d", first, s.err);
			if (!s.err && (s.bc.size != a.bc.size || memcmp(a.bc.data, s.bc.data, a.bc.size))) fail("strict", "strict translation yields other code");
			++n_strict;
			drop(&s);
		}
		/* every line for itself: a line must not depend on the ones before it, right or wrong */
		if (!(opts & 2) && lines > 1) {
			size_t at = 0, code = 0;
			bool dup = false;
			for (idx e = 0; e < a.bc.size; e += 2) {
				e = bc_scan(a.bc, e, BC_ERROR);
				if (e >= a.bc.size) break;
				if (a.bc.data[e + 1] == ERR_LABEL_ADD_FAILURE) dup = true;   /* depends on the other labels */
			}
			while (!dup && at < len) {
				size_t e = at;
				while (text[e] != '\r') ++e;
				++e;
				struct out l = translate(text + at, e - at, mode & ~16, opts, 0x55);
				if (code + l.bc.size > a.bc.size || memcmp(a.bc.data + code, l.bc.data, l.bc.size))
					fail("lines", "line at %u has other code when translated alone", (unsigned)at);
				code += l.bc.size;
				at = e;
				++n_alone;
				drop(&l);
			}
			if (!dup && code != a.bc.size) fail("lines", "%u bytes of code, %u for the lines alone", (unsigned)a.bc.size, (unsigned)code);
		}
	}
	drop(&a);
	drop(&b);
	free(text);
	return 0;
}
