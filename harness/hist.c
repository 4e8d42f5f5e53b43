/* Histories of operations on libmy's containers.  A case is a program: octets
 * for operations, the answers are the trace the monitor judges. */
#include "proto.h"

#ifdef VF_OOM_OF
# include "oom_off.h"
#endif
#include "libmy/heap.h"
#include "libmy/ubuf.h"
#include "libmy/ubuf-pb.h"	/* over a stand-in header */
#include "libmy/vector.h"
#include "libmy/list.h"
#include "libmy/tree.h"
#ifdef VF_OOM_OF
# include "oom_on.h"
#endif

static const uint8_t *pc, *pe;
static uint8_t g8(void) { if (pc >= pe) { fprintf(stderr, "harness: short program\n"); _exit(91); } return *pc++; }
static uint32_t g32(void) { uint32_t v = g8(); v |= (uint32_t) g8() << 8; v |= (uint32_t) g8() << 16; v |= (uint32_t) g8() << 24; return v; }

/* ------------------------------------------------------------------ heap */
struct item { int32_t key; uint32_t id; };
static uint64_t n_cmp;
static int item_cmp(const void *a, const void *b)
{
	int32_t x = ((const struct item *) a)->key, y = ((const struct item *) b)->key;
	n_cmp++;
	return x < y ? -1 : x > y ? 1 : 0;
}

static void out_item(const struct item *i) { out_num(i == NULL ? UINT64_MAX : i->id); }

static void op_heap(void)
{
	size_t cap = args[0].len / 5 + 4, n = 0;
	struct item **items = calloc(cap, sizeof(*items));
	struct heap *h = heap_init(item_cmp);
	pc = args[0].p;
	pe = pc + args[0].len;
	while (pc < pe) {
		uint8_t o = g8();
		switch (o) {
		case 0: case 3: {	/* push, replace KEY */
			struct item *i = malloc(sizeof(*i));
			i->key = (int32_t) g32();
			i->id = (uint32_t) n;
			items[n++] = i;
			if (o == 0) {
				heap_push(h, i);
				out_num(0);
			} else {
				out_item(heap_replace(h, i));
			}
			break;
		}
		case 1: out_item(heap_pop(h)); break;
		case 2: out_item(heap_peek(h)); break;
		case 4: {		/* all elements, and two indices beyond */
			size_t k = heap_size(h);
			for (size_t i = 0; i < k; i++)
				out_item(heap_get(h, i));
			out_item(heap_get(h, k));
			out_item(heap_get(h, k + 1 + g8()));
			out_item(heap_get(h, SIZE_MAX));
			break;
		}
		default: fprintf(stderr, "harness: bad heap op\n"); _exit(91);
		}
		out_num(heap_size(h));
	}
	heap_destroy(&h);
	out_num(h == NULL);
	for (size_t i = 0; i < n; i++)
		free(items[i]);
	free(items);
}

/* ---------------------------------------------------------------- buffers */
struct trio { uint32_t a, b; uint8_t c[3]; };
VECTOR_GENERATE(u64vec, uint64_t);
VECTOR_GENERATE(triovec, struct trio);

static void look(ubuf *u)
{
	out_num(ubuf_size(u));
	out_num(ubuf_bytes(u));
	out_num((uint64_t) (ubuf_ptr(u) - ubuf_data(u)));
	out_bytes(ubuf_data(u), ubuf_size(u));
	for (size_t i = 0; i < ubuf_size(u); i += 1 + ubuf_size(u) / 7)
		if (ubuf_value(u, i) != ubuf_data(u)[i])
			out_str("value differs");
}

/* program over two buffers: octet = op | which << 7 */
static void op_ubuf(void)
{
	ubuf *u[2];
	pc = args[0].p;
	pe = pc + args[0].len;
	u[0] = ubuf_init(g8());
	u[1] = ubuf_new();
	live_blocks = 0;
	while (pc < pe) {
		uint8_t o = g8();
		int w = o >> 7;
		ubuf *x = u[w];
		switch (o & 0x7f) {
		case 0: ubuf_add(x, g8()); break;
		case 1: case 16: {	/* append LEN SEED; 16: as protobuf-c does */
			uint32_t n = g32();
			uint8_t s = g8();
			uint8_t *b = malloc(n ? n : 1);
			for (uint32_t i = 0; i < n; i++)
				b[i] = (uint8_t) (s + i * 7 + (i >> 8));
			if ((o & 0x7f) == 1) {
				ubuf_append(x, b, n);
			} else {
				struct ubuf_protobuf_c_buffer pb = UBUF_PROTOBUF_C_BUFFER_INIT(x);
				pb.base.append(&pb.base, n, b);
			}
			free(b);
			break;
		}
		case 2: ubuf_extend(x, u[!w]); break;
		case 3: {	/* reserve N and fill through the pointer: the room has to be there */
			uint32_t n = g32();
			uint8_t s = g8();
			ubuf_reserve(x, n);
			memset(ubuf_ptr(x), s, n);
			if (g8() & 1)
				ubuf_advance(x, n);
			break;
		}
		case 4: ubuf_clip(x, g32()); break;
		case 5: ubuf_reset(x); break;
		case 6: case 7: {	/* C strings */
			uint8_t n = g8(), s = g8();
			char b[256];
			for (unsigned i = 0; i < n; i++)
				b[i] = (char) (33 + (s + i * 5u) % 90);
			b[n] = 0;
			char *c = (char *) dup_exact((uint8_t *) b, n, true);
			if ((o & 0x7f) == 6)
				ubuf_add_cstr(x, c);
			else
				ubuf_append_cstr(x, c, n);
			free(c);
			break;
		}
		case 8: ubuf_cterm(x); break;
		case 9: {
			char *s = ubuf_cstr(x);
			out_num(s == (char *) ubuf_data(x));
			out_str(s);
			break;
		}
		case 10: {	/* formatted append */
			uint32_t v = g32();
			uint8_t n = g8();
			char pad[300];
			memset(pad, '%', n);
			pad[n] = 0;
			ubuf_add_fmt(x, "<%u|%s|%-*d>", v, pad, (int) (n * 3u), (int) (v & 0xff));
			break;
		}
		case 11: ubuf_rstrip(x, (char) g8()); break;
		case 12: {	/* detach */
			uint8_t *p = NULL;
			size_t n = 12345;
			ubuf_detach(x, &p, &n);
			out_num(n);
			out_bytes(p, n);
			free(p);
			break;
		}
		case 13: {	/* destroy and make anew from a string */
			uint8_t n = g8();
			char b[256];
			memset(b, 'a' + n % 26, n);
			b[n] = 0;
			ubuf_destroy(&u[w]);
			out_num(u[w] == NULL);
			char *c = (char *) dup_exact((uint8_t *) b, n, true);
			u[w] = x = ubuf_dup_cstr(c);
			free(c);
			break;
		}
		case 14: {	/* a vector kept by value */
			uint8_t hint = g8(), n = g8();
			u64vec v;
			memset(&v, 0xa5, sizeof(v));
			u64vec_reinit(hint, &v);
			out_num(u64vec_size(&v));
			for (unsigned i = 0; i < n; i++)
				u64vec_add(&v, (uint64_t) i * 0x0123456789abcdefULL);
			out_num(u64vec_bytes(&v));
			uint64_t bad = 0;
			for (unsigned i = 0; i < n; i++)
				if (u64vec_value(&v, i) != (uint64_t) i * 0x0123456789abcdefULL)
					bad++;
			out_num(bad);
			free(u64vec_data(&v));
			break;
		}
		case 15: ubuf_append_cstr_lit(x, "lit\0eral"); break;
		default: fprintf(stderr, "harness: bad ubuf op\n"); _exit(91);
		}
		look(x);
	}
	ubuf_destroy(&u[0]);
	ubuf_destroy(&u[1]);
	out_num(u[0] == NULL && u[1] == NULL);
}

static void out_trio(const struct trio *t) { out_num(t->a | (uint64_t) t->b << 32); out_bytes(t->c, 3); }

/* vector of structures: add, append, extend, clip, reset, detach, reserve */
static void op_vec(void)
{
	triovec *v, *w;
	uint32_t serial = 0;
	pc = args[0].p;
	pe = pc + args[0].len;
	v = triovec_init(g8());
	w = triovec_init(1);
	while (pc < pe) {
		uint8_t o = g8();
		uint32_t n;
		switch (o) {
		case 0: {
			struct trio t = { serial, ~serial, { 1, 2, (uint8_t) serial } };
			serial++;
			triovec_add(v, t);
			break;
		}
		case 1: case 2: {
			n = g32();
			struct trio *b = calloc(n ? n : 1, sizeof(*b));
			for (uint32_t i = 0; i < n; i++) {
				b[i].a = serial;
				b[i].b = ~serial;
				b[i].c[0] = 1; b[i].c[1] = 2; b[i].c[2] = (uint8_t) serial;
				serial++;
			}
			if (o == 1) {
				triovec_append(v, b, n);
			} else {
				triovec_reset(w);
				triovec_append(w, b, n);
				triovec_extend(v, w);
			}
			free(b);
			break;
		}
		case 3: triovec_clip(v, g32()); break;
		case 4: triovec_reset(v); break;
		case 5: {
			struct trio *p;
			size_t k;
			triovec_detach(v, &p, &k);
			out_num(k);
			for (size_t i = 0; i < k; i++)
				out_trio(&p[i]);
			free(p);
			break;
		}
		case 6: n = g32(); triovec_reserve(v, n); memset(triovec_ptr(v), 0x77, n * sizeof(struct trio)); break;
		default: fprintf(stderr, "harness: bad vec op\n"); _exit(91);
		}
		out_num(triovec_size(v));
		out_num(triovec_bytes(v) / sizeof(struct trio));
		out_num((uint64_t) (triovec_ptr(v) - triovec_data(v)));
		/* a window of the elements, and at the end all of them */
		size_t k = triovec_size(v);
		size_t from = pc < pe && k > 5 ? k - 5 : 0;
		out_num(from);
		for (size_t i = from; i < k; i++) {
			struct trio t = triovec_value(v, i);
			out_trio(&t);
		}
	}
	triovec_destroy(&v);
	triovec_destroy(&w);
}

/* ------------------------------------------------------------------- list */
struct elt { uint32_t id; ISC_LINK(struct elt) link; };
typedef ISC_LIST(struct elt) eltlist;

static void show(eltlist *l)
{
	size_t n = 0, m = 0;
	for (struct elt *e = ISC_LIST_HEAD(*l); e != NULL && n < 5000; e = ISC_LIST_NEXT(e, link))
		n++;
	out_num(n);
	for (struct elt *e = ISC_LIST_HEAD(*l); e != NULL && m < n; e = ISC_LIST_NEXT(e, link), m++)
		out_num(e->id);
	m = 0;
	for (struct elt *e = ISC_LIST_TAIL(*l); e != NULL && m < 5000; e = ISC_LIST_PREV(e, link))
		m++;
	out_num(m);
	n = 0;
	for (struct elt *e = ISC_LIST_TAIL(*l); e != NULL && n < m; e = ISC_LIST_PREV(e, link), n++)
		out_num(e->id);
	out_num(ISC_LIST_EMPTY((*l)) ? 1 : 0);
}

/* ops on two lists; elements are named by number, the program is valid */
static void op_list(void)
{
	static struct elt e[256];
	eltlist l[2];
	ISC_LIST_INIT(l[0]);
	ISC_LIST_INIT(l[1]);
	for (unsigned i = 0; i < 256; i++) {
		e[i].id = i;
		ISC_LINK_INIT(&e[i], link);
	}
	pc = args[0].p;
	pe = pc + args[0].len;
	while (pc < pe) {
		uint8_t o = g8();
		int w = o >> 7;
		uint8_t a = g8(), b = g8();
		switch (o & 0x7f) {
		case 0: ISC_LIST_PREPEND(l[w], &e[a], link); break;
		case 1: ISC_LIST_APPEND(l[w], &e[a], link); break;
		case 2: ISC_LIST_INSERTBEFORE(l[w], &e[b], &e[a], link); break;
		case 3: ISC_LIST_INSERTAFTER(l[w], &e[b], &e[a], link); break;
		case 4: ISC_LIST_UNLINK(l[w], &e[a], link); break;
		case 5: ISC_LIST_APPENDLIST(l[w], l[!w], link); break;
		case 6: ISC_LIST_ENQUEUE(l[w], &e[a], link); break;
		default: fprintf(stderr, "harness: bad list op\n"); _exit(91);
		}
		out_num(ISC_LINK_LINKED(&e[a], link) ? 1 : 0);
		show(&l[0]);
		show(&l[1]);
	}
}

/* ------------------------------------------------------------------ trees */
struct node { uint32_t key, id; RB_ENTRY(node) rb; SPLAY_ENTRY(node) sp; bool in; };
static int node_cmp(const struct node *a, const struct node *b)
{
	return a->key < b->key ? -1 : a->key > b->key;
}
RB_HEAD(rbt, node);
RB_PROTOTYPE(rbt, node, rb, node_cmp)
RB_GENERATE(rbt, node, rb, node_cmp)
SPLAY_HEAD(spt, node);
SPLAY_PROTOTYPE(spt, node, sp, node_cmp)
SPLAY_GENERATE(spt, node, sp, node_cmp)

/* height, or -1 when the tree is no red-black tree */
static long rb_check(struct node *n, struct node *parent, long *black, unsigned depth)
{
	if (n == NULL) { *black = 0; return 0; }
	if (depth > 200 || RB_PARENT(n, rb) != parent)
		return -1;
	if (RB_COLOR(n, rb) == RB_RED && parent != NULL && RB_COLOR(parent, rb) == RB_RED)
		return -1;
	long bl, br, l = rb_check(RB_LEFT(n, rb), n, &bl, depth + 1), r = rb_check(RB_RIGHT(n, rb), n, &br, depth + 1);
	if (l < 0 || r < 0 || bl != br)
		return -1;
	*black = bl + (RB_COLOR(n, rb) == RB_BLACK);
	return 1 + (l > r ? l : r);
}

static void out_node(struct node *n) { out_num(n == NULL ? UINT64_MAX : n->id); }

static void op_tree(void)
{
	bool rb = arg_num(0) != 0;
	struct node *nodes[4096];
	unsigned n = 0;
	struct rbt t;
	struct spt s;
	RB_INIT(&t);
	SPLAY_INIT(&s);
	pc = args[1].p;
	pe = pc + args[1].len;
	while (pc < pe) {
		uint8_t o = g8();
		struct node k;
		memset(&k, 0, sizeof(k));
		switch (o) {
		case 0: {	/* insert KEY */
			struct node *x = malloc(sizeof(*x));
			memset(x, 0xa5, sizeof(*x));
			x->key = g32();
			x->id = n;
			nodes[n++] = x;
			out_node(rb ? RB_INSERT(rbt, &t, x) : SPLAY_INSERT(spt, &s, x));
			break;
		}
		case 1: {	/* remove the node with KEY, if there is one */
			k.key = g32();
			struct node *x = rb ? RB_FIND(rbt, &t, &k) : SPLAY_FIND(spt, &s, &k);
			out_node(x);
			if (x != NULL) {
				struct node *y = rb ? RB_REMOVE(rbt, &t, x) : SPLAY_REMOVE(spt, &s, x);
				out_node(y);
				memset(&x->rb, 0xa5, sizeof(x->rb));
				memset(&x->sp, 0xa5, sizeof(x->sp));
			}
			break;
		}
		case 2: {	/* find */
			k.key = g32();
			out_node(rb ? RB_FIND(rbt, &t, &k) : SPLAY_FIND(spt, &s, &k));
			break;
		}
		case 3:		/* smallest at least KEY */
			k.key = g32();
			out_node(rb ? RB_NFIND(rbt, &t, &k) : NULL);
			break;
		case 4:		/* ends */
			out_node(rb ? RB_MIN(rbt, &t) : SPLAY_MIN(spt, &s));
			out_node(rb ? RB_MAX(rbt, &t) : SPLAY_MAX(spt, &s));
			break;
		case 5: {	/* everything, in both directions */
			struct node *x;
			unsigned c = 0;
			size_t at = out_len;
			out_num(0);
			if (rb) {
				RB_FOREACH(x, rbt, &t) { out_node(x); if (++c > 5000) break; }
			} else {
				SPLAY_FOREACH(x, spt, &s) { out_node(x); if (++c > 5000) break; }
			}
			uint64_t cc = c;
			memcpy(out_buf + at + 4, &cc, 8);
			if (rb) {
				c = 0;
				at = out_len;
				out_num(0);
				RB_FOREACH_REVERSE(x, rbt, &t) { out_node(x); if (++c > 5000) break; }
				cc = c;
				memcpy(out_buf + at + 4, &cc, 8);
			}
			break;
		}
		default: fprintf(stderr, "harness: bad tree op\n"); _exit(91);
		}
		if (rb) {
			long black, h = rb_check(RB_ROOT(&t), NULL, &black, 0);
			if (h > 0 && RB_COLOR(RB_ROOT(&t), rb) != RB_BLACK)
				h = -1;
			out_num((uint64_t) h);
			out_num(RB_EMPTY(&t) ? 1 : 0);
		} else {
			out_num(0);
			out_num(SPLAY_EMPTY(&s) ? 1 : 0);
		}
	}
	for (unsigned i = 0; i < n; i++)
		free(nodes[i]);
}

static void run_case(uint8_t op)
{
	switch (op) {
	case 1: op_heap(); break;
	case 2: op_ubuf(); break;
	case 3: op_vec(); break;
	case 4: op_list(); break;
	case 5: op_tree(); break;
	default: fprintf(stderr, "harness: bad op %u\n", op); _exit(91);
	}
}

#ifndef VF_NO_MAIN
int main(int argc, char **argv) { return proto_main(argc, argv); }
#endif
