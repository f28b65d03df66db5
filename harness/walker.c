/* Print the tables of a keyboard driver the way Windows walks them. The
 * structures are those of kbd.h, not those of the generated source. */
#include <stdio.h>

#include DRIVER

#define MAX 10000

typedef unsigned char w_byte;
typedef unsigned short w_word;
typedef struct { w_byte vk, bits; } w_vkToBit;
typedef struct { w_vkToBit *vkToBit; w_word max; w_byte number[]; } w_modifiers;
typedef struct { w_byte vk, attributes; w_word wch[1]; } w_vkToWchars;
typedef struct { w_vkToWchars *p; w_byte n, size; } w_vkToWcharTable;
typedef struct { w_byte vsc; w_word *name; } w_vscName;
typedef struct { w_byte vsc; w_word vk; } w_vscVk;
typedef struct {
	w_modifiers *modifiers;
	w_vkToWcharTable *wchars;
	void *dead;
	w_vscName *names, *namesExt;
	w_word **namesDead;
	w_word *vscToVk;
	w_byte maxVscToVk;
	w_vscVk *e0, *e1;
	unsigned long flags;
	w_byte nLg, cbLg;
	void *ligature;
	unsigned long type, subType;
} w_tables;

/* memory which was read, compared to the size of the object it belongs to later */
static void w_range (const void *from, const void *to) {
	printf ("range %lu %lu\n", (unsigned long) from, (unsigned long) to);
}

static void w_names (const char *what, w_vscName *n) {
	w_vscName * const start = n;
	for (; n->vsc != 0 && n-start < MAX; n++) {
		w_range (start, n+1);
		printf ("%s %d", what, n->vsc);
		for (w_word *p = n->name; *p; p++) {
			printf (" %d", *p);
		}
		printf ("\n");
	}
	w_range (start, n+1);
}

static void w_vsc (const char *what, w_vscVk *v) {
	w_vscVk * const start = v;
	for (; v->vk != 0 && v-start < MAX; v++) {
		printf ("%s %d %d\n", what, v->vsc, v->vk);
	}
	w_range (start, v+1);
}

int main (void) {
	setvbuf (stdout, NULL, _IOLBF, 0);
	const w_tables * const t = (w_tables *) KbdLayerDescriptor ();
	w_vkToBit *b;
	for (b = t->modifiers->vkToBit; b->vk != 0 && b-t->modifiers->vkToBit < MAX; b++) {
		printf ("bit %d %d\n", b->vk, b->bits);
	}
	w_range (t->modifiers->vkToBit, b+1);
	w_range (t->modifiers, &t->modifiers->number[t->modifiers->max+1]);
	for (int i = 0; i <= t->modifiers->max; i++) {
		printf ("mod %d %d\n", i, t->modifiers->number[i]);
	}
	w_vkToWcharTable *x;
	for (x = t->wchars; x->p != NULL; x++) {
		w_range (t->wchars, x+1);
		printf ("table %d %d\n", x->n, x->size);
		if (x->size == 0) {
			return 3;
		}
		w_byte *start = (w_byte *) x->p, *at;
		for (at = start; *at != 0 && at-start < MAX; at += x->size) {
			w_vkToWchars * const c = (w_vkToWchars *) at;
			printf ("char %d %d", c->vk, c->attributes);
			for (int i = 0; i < x->n; i++) {
				printf (" %d", ((volatile w_word *) c->wch)[i]);
			}
			printf ("\n");
		}
		/* size of the last entry does not matter */
		w_range (start, at+1);
	}
	w_range (t->wchars, x+1);
	w_range (t->vscToVk, &t->vscToVk[t->maxVscToVk]);
	for (int i = 0; i < t->maxVscToVk; i++) {
		printf ("vsc %d %d\n", i, t->vscToVk[i]);
	}
	w_vsc ("e0", t->e0);
	w_vsc ("e1", t->e1);
	w_names ("name", t->names);
	w_names ("ename", t->namesExt);
	printf ("misc %d %d %d %d %d %lu\n", t->dead != NULL, t->namesDead != NULL, t->nLg, t->cbLg, t->ligature != NULL, t->flags);
	printf ("end\n");
	return 0;
}
