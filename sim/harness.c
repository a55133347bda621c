/* Drives util/fifo directly with simulated producer and consumer threads, which
 * keep to the rules the processes of fql keep to: a producer adds one item only
 * after it saw room for one, the last producer closes, one consumer per fifo,
 * and "closed" is looked at before "empty".
 *
 * args: seed pipes producers items capacity rounds mode early
 */
#include "util/fifo.h"
#include "util/util.h"
#include "fql.h"
#include <pthread.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>

#define MAXP 8

struct rng {
	unsigned long s;
};
static unsigned long rnd(struct rng* r, unsigned long n)
{
	r->s ^= r->s << 13;
	r->s ^= r->s >> 7;
	r->s ^= r->s << 17;
	return (r->s >> 11) % n;
}
static struct rng seeded(unsigned long a, unsigned long b)
{
	struct rng r = {(a + 1) * 0x9E3779B97F4A7C15ul ^ (b + 77) * 0xD1B54A32D192ED03ul};
	rnd(&r, 2);
	rnd(&r, 2);
	return r;
}

struct pipe_ {
	fifo* f;
	_Atomic int left;                 /* producers that have not finished */
	_Atomic long added[MAXP];         /* items each producer has added */
	long next[MAXP];                  /* what the consumer expects from each */
	int producers, items;
	int preset;                       /* items that were there from the start (sent as producer MAXP) */
	long preset_next;
};
struct shared {
	struct pipe_ p[2];
	int pipes, mode, early, cap;
	unsigned long seed;
	_Atomic int bad;
};
struct arg {
	struct shared* s;
	int pipe, id, round;
};

static int done(fifo* f)
{
	return !f->is_open && fifo_is_empty(f);
}

static void* produce(void* v)
{
	struct arg* a = v;
	struct pipe_* p = &a->s->p[a->pipe];
	fifo* f = p->f;
	struct rng g = seeded(a->s->seed, a->pipe * 100 + a->id * 10 + a->round * 1000 + 1);
	vec* buf = new_t_(vec, long);
	int style = rnd(&g, 4); /* 0 one by one, 1 trying, 2 in blocks, 3 any */
	long seq = 0;
	while (f->is_open && (seq < p->items || !vec_empty(buf))) {
		int how = style == 3 ? (int)rnd(&g, 3) : style;
		long item = ((long)a->id << 32) | seq;
		if (how == 2 || !vec_empty(buf)) {
			/* what is buffered goes first */
			unsigned want = 1 + rnd(&g, a->s->cap + 2);
			while (seq < p->items && buf->size < want) {
				item = ((long)a->id << 32) | seq++;
				vec_push_back(buf, &item);
			}
			unsigned before = buf->size;
			if (rnd(&g, 2)) {
				fifo_nadd(f, buf);
			} else {
				fifo_nadd_try(f, buf);
			}
			if (buf->size > before) {
				a->s->bad = 1;
				fprintf(stderr, "a producer's block grew\n");
				break;
			}
			p->added[a->id] += before - buf->size;
			if (before == buf->size) {
				if (f->is_open && fifo_is_full(f)) {
					fifo_wait_for_get(f);
				}
			}
			continue;
		}
		if (!fifo_receivable(f)) {
			if (rnd(&g, 2) || fifo_is_full(f)) {
				fifo_wait_for_get(f);
			}
			continue;
		}
		if (how == 1) {
			if (fifo_add_try(f, &item)) {
				continue;
			}
		} else if (p->producers == 1 && rnd(&g, 4) == 0) {
			vec_set_at(f->buf, f->head, &item, 1);
			fifo_advance(f);
		} else {
			fifo_add(f, &item);
		}
		++seq;
		++p->added[a->id];
	}
	delete_(vec, buf);
	if (--p->left == 0) {
		fifo_set_open(f, false);
	}
	return NULL;
}

/* feeds two pipes in turn, waiting for room in the one it is at */
static void* produce_two(void* v)
{
	struct arg* a = v;
	struct shared* s = a->s;
	struct rng g = seeded(s->seed, a->id * 10 + a->round * 1000 + 3);
	long seq[2] = {0, 0};
	vec* buf = new_t_(vec, long);
	while (s->p[0].f->is_open && s->p[1].f->is_open && (seq[0] < s->p[0].items || seq[1] < s->p[1].items)) {
		int w = rnd(&g, 2);
		struct pipe_* p = &s->p[w];
		long n = 1 + rnd(&g, 2 * s->cap);
		int how = rnd(&g, 3);
		while (n-- > 0 && seq[w] < p->items && p->f->is_open) {
			long item = ((long)a->id << 32) | seq[w];
			while (p->f->is_open && !fifo_receivable(p->f)) {
				fifo_wait_for_get(p->f);
			}
			if (how == 0) {
				fifo_add(p->f, &item);
			} else if (how == 1) {
				if (fifo_add_try(p->f, &item)) {
					++n;
					continue;
				}
			} else {
				vec_clear(buf);
				vec_push_back(buf, &item);
				if (rnd(&g, 2)) {
					fifo_nadd(p->f, buf);
				} else {
					fifo_nadd_try(p->f, buf);
				}
				if (!vec_empty(buf)) {
					++n;
					continue;
				}
			}
			++seq[w];
			++p->added[a->id];
		}
	}
	delete_(vec, buf);
	for (int i = 0; i < 2; ++i) {
		if (--s->p[i].left == 0) {
			fifo_set_open(s->p[i].f, false);
		}
	}
	return NULL;
}

static int take(struct shared* s, struct pipe_* p, long item)
{
	long id = item >> 32, seq = item & 0xffffffff;
	if (id == MAXP && p->preset_next < p->preset && seq == p->preset_next) {
		++p->preset_next;
		return 0;
	}
	if (id == MAXP || p->preset_next < p->preset) {
		fprintf(stderr, "received item %ld of %ld before what was there from the start\n", seq, id);
		s->bad = 1;
		return -1;
	}
	if (id < 0 || id >= p->producers || seq != p->next[id]) {
		fprintf(stderr, "received item %ld of producer %ld, expected %ld\n", seq, id,
		        id >= 0 && id < p->producers ? p->next[id] : -1);
		s->bad = 1;
		return -1;
	}
	++p->next[id];
	return 0;
}

/* something is in there: take some of it */
static long drain(struct shared* s, struct pipe_* p, struct rng* g, vec* buf)
{
	fifo* f = p->f;
	long got = 0;
	switch (rnd(g, 6)) {
	case 0: {
		long v = *(long*)fifo_get(f);
		++got;
		take(s, p, v);
		break;
	}
	case 1: {
		long* v = fifo_peek(f);
		if (*v != *(long*)fifo_peek(f)) {
			s->bad = 1;
			fprintf(stderr, "looking twice shows two different items\n");
		}
		take(s, p, *v);
		fifo_consume(f);
		++got;
		break;
	}
	case 2: {
		vec_clear(buf);
		unsigned block = 1 + rnd(g, 2), max = 1 + rnd(g, s->cap + 2);
		fifo_nget(f, buf, block, max);
		if (buf->size % block || buf->size > max) {
			s->bad = 1;
			fprintf(stderr, "a block of %u items, asked for at most %u in units of %u\n", (unsigned)buf->size, max, block);
		}
		for (unsigned i = 0; i < buf->size && !s->bad; ++i) {
			take(s, p, *(long*)vec_at(buf, i));
		}
		got = buf->size;
		break;
	}
	case 3: {
		long* it = fifo_begin(f);
		while (it != (long*)fifo_end(f) && !s->bad) {
			take(s, p, *it);
			++got;
			it = fifo_iter(f);
			if (rnd(g, 4) == 0) {
				break;
			}
		}
		if (rnd(g, 2)) {
			fifo_update(f);
		} else {
			while (fifo_update_try(f)) {
			}
		}
		break;
	}
	case 4: {
		long* v = fifo_safe_peek(f);
		if (v == NULL) {
			s->bad = 1;
			fprintf(stderr, "nothing to look at although something is there\n");
			break;
		}
		take(s, p, *v);
		fifo_consume(f);
		++got;
		break;
	}
	default: {
		long* v = fifo_look_ahead(f);
		long* w = fifo_peek(f);
		if (v != NULL && (*w >> 32) == (*v >> 32) && (*v & 0xffffffff) != (*w & 0xffffffff) + 1) {
			s->bad = 1;
			fprintf(stderr, "the item behind the first is not the next one\n");
			break;
		}
		take(s, p, *w);
		fifo_consume(f);
		++got;
	}
	}
	return got;
}

static void check_end(struct shared* s, struct pipe_* p)
{
	if (p->preset_next != p->preset) {
		s->bad = 1;
		fprintf(stderr, "the end after %ld of %d items that were there from the start\n", p->preset_next, p->preset);
	}
	for (int i = 0; i < p->producers && !s->bad; ++i) {
		if (p->next[i] != p->items) {
			s->bad = 1;
			fprintf(stderr, "the end after %ld of %d items of producer %d\n", p->next[i], p->items, i);
		}
	}
}

static void* consume(void* v)
{
	struct arg* a = v;
	struct shared* s = a->s;
	struct rng g = seeded(s->seed, 5000 + a->round);
	vec* buf = new_t_(vec, long);
	long stop = s->early ? (long)rnd(&g, s->p[0].items * s->p[0].producers + 1) : -1;
	long got = 0;
	if (s->pipes == 1) {
		struct pipe_* p = &s->p[0];
		while (!s->bad) {
			if (stop >= 0 && got >= stop) {
				fifo_set_open(p->f, false);
				break;
			}
			if (!fifo_is_empty(p->f)) {
				got += drain(s, p, &g, buf);
			} else if (done(p->f)) {
				check_end(s, p);
				break;
			} else if (rnd(&g, 2)) {
				long* v = fifo_get_or_wait(p->f);
				if (v != NULL) {
					take(s, p, *v);
					++got;
				}
			} else {
				fifo_wait_for_add(p->f);
			}
		}
		if (s->bad) {
			fifo_set_open(p->f, false);
		}
	} else {
		fifo *f0 = s->p[0].f, *f1 = s->p[1].f;
		while (!s->bad) {
			int d0 = done(f0), d1 = done(f1);
			if (d0 && d1) {
				check_end(s, &s->p[0]);
				check_end(s, &s->p[1]);
				break;
			}
			if (stop >= 0 && got >= stop) {
				fifo_set_open(f0, false);
				fifo_set_open(f1, false);
				break;
			}
			int e0 = fifo_is_empty(f0), e1 = fifo_is_empty(f1);
			if (s->mode == 1) { /* both are needed as long as both are open */
				if ((e0 || e1) && !d0 && !d1 && f0->is_open && f1->is_open) {
					fifo_wait_for_add_both(f0, f1);
					continue;
				}
			} else if (e0 && e1 && f0->is_open && f1->is_open) {
				fifo_wait_for_add_either(f0, f1);
				continue;
			}
			if (!e0 && (e1 || rnd(&g, 2))) {
				got += drain(s, &s->p[0], &g, buf);
			} else if (!e1) {
				got += drain(s, &s->p[1], &g, buf);
			} else if (!d0) {
				fifo_wait_for_add(d1 || !f1->is_open ? f0 : f1);
			} else {
				fifo_wait_for_add(f1);
			}
		}
		if (s->bad) {
			fifo_set_open(f0, false);
			fifo_set_open(f1, false);
		}
	}
	delete_(vec, buf);
	return NULL;
}

/* A pool of items goes round, as the records of fql do: the reader takes them
 * out of the pool and hands them to workers, which put them back.
 */
struct pool {
	fifo* root;
	fifo* hand[MAXP];
	int workers, n;
	long passes;
	unsigned long seed;
	_Atomic int* out; /* is the item out of the pool? */
	_Atomic int bad;
};
struct parg {
	struct pool* s;
	int id;
};
static void* pool_worker(void* v)
{
	struct parg* a = v;
	struct pool* s = a->s;
	fifo* in = s->hand[a->id];
	struct rng g = seeded(s->seed, 100 + a->id);
	vec* held = new_t_(vec, long);
	for (;;) {
		int end = done(in);
		while (!fifo_is_empty(in)) {
			long item;
			if (rnd(&g, 2)) {
				item = *(long*)fifo_get(in);
			} else {
				item = *(long*)fifo_peek(in);
				fifo_consume(in);
			}
			vec_push_back(held, &item);
			if (rnd(&g, 3)) {
				break;
			}
		}
		if (end || held->size > 2 || fifo_is_empty(in) || rnd(&g, 2)) {
			for (unsigned i = 0; i < held->size; ++i) {
				long item = *(long*)vec_at(held, i);
				if (item < 0 || item >= s->n || !s->out[item]) {
					s->bad = 1;
					fprintf(stderr, "item %ld was handed out twice or never\n", item);
					break;
				}
				s->out[item] = 0;
				fifo_add(s->root, &item);
			}
			vec_clear(held);
		}
		if (end || s->bad) {
			break;
		}
		fifo_wait_for_add(in);
	}
	if (s->bad) { /* let the reader go on */
		fifo_set_open(s->root, false);
		fifo_set_open(in, false);
	}
	delete_(vec, held);
	return NULL;
}
static void* pool_reader(void* v)
{
	struct parg* a = v;
	struct pool* s = a->s;
	struct rng g = seeded(s->seed, 7);
	for (long i = 0; i < s->passes && !s->bad; ++i) {
		if (fifo_is_empty(s->root)) {
			fifo_wait_for_add(s->root);
			if (fifo_is_empty(s->root)) {
				break;
			}
		}
		int keep = rnd(&g, 2);
		long item = *(long*)(keep ? fifo_peek(s->root) : fifo_get(s->root));
		if (item < 0 || item >= s->n || s->out[item]) {
			s->bad = 1;
			fprintf(stderr, "item %ld is in the pool twice\n", item);
			break;
		}
		s->out[item] = 1;
		fifo* to = s->hand[rnd(&g, s->workers)];
		if (keep) {
			fifo_consume(s->root);
		}
		while (to->is_open && !fifo_receivable(to)) {
			fifo_wait_for_get(to);
		}
		fifo_add(to, &item);
	}
	for (int i = 0; i < s->workers; ++i) {
		fifo_set_open(s->hand[i], false);
	}
	return NULL;
}

static long pool_harness(unsigned long seed, int workers, int n, int cap, int rounds)
{
	struct pool s;
	memset(&s, 0, sizeof(s));
	s.seed = seed;
	s.workers = workers;
	s.n = n > 0 ? n : 1;
	s.out = calloc(s.n, sizeof(*s.out));
	s.root = new_t_(fifo, long, s.n + 1);
	for (int i = 0; i < workers; ++i) {
		s.hand[i] = new_t_(fifo, long, cap);
		s.hand[i]->input_count = 1;
	}
	for (int r = 0; r < rounds && !s.bad; ++r) {
		struct rng g = seeded(seed, 900 + r);
		s.passes = rnd(&g, 4 * s.n + 2);
		for (long k = 0; k < s.n; ++k) {
			vec_set_at(s.root->buf, k, &k, 1);
			s.out[k] = 0;
		}
		fifo_reset(s.root);
		fifo_set_full(s.root);
		pthread_t th[MAXP + 1];
		struct parg as[MAXP + 1];
		for (int i = 0; i < workers; ++i) {
			fifo_reset(s.hand[i]);
			as[i] = (struct parg) {&s, i};
			pthread_create(&th[i], NULL, pool_worker, &as[i]);
		}
		as[workers] = (struct parg) {&s, 0};
		pthread_create(&th[workers], NULL, pool_reader, &as[workers]);
		for (int i = 0; i <= workers; ++i) {
			pthread_join(th[i], NULL);
		}
		if (s.bad) {
			break;
		}
		/* everything is back, once */
		if (fifo_available(s.root) != (unsigned)s.n || !fifo_is_full(s.root)) {
			s.bad = 1;
			fprintf(stderr, "%u of %d items are back in the pool\n", fifo_available(s.root), s.n);
		}
		for (int k = 0; k < s.n && !s.bad; ++k) {
			long item = *(long*)fifo_get(s.root);
			if (item < 0 || item >= s.n || s.out[item]) {
				s.bad = 1;
				fprintf(stderr, "item %ld is back in the pool twice\n", item);
				break;
			}
			s.out[item] = 1;
		}
	}
	delete_(fifo, s.root);
	for (int i = 0; i < workers; ++i) {
		delete_(fifo, s.hand[i]);
	}
	free(s.out);
	return s.bad ? FQL_FAIL : FQL_GOOD;
}

long fifo_harness(int argc, const char** argv)
{
	if (argc < 8) {
		return FQL_FAIL;
	}
	struct shared s;
	memset(&s, 0, sizeof(s));
	s.seed = strtoul(argv[0], NULL, 10);
	s.pipes = atoi(argv[1]);
	s.cap = atoi(argv[4]);
	s.mode = atoi(argv[6]);
	s.early = atoi(argv[7]);
	int rounds = atoi(argv[5]);
	if (s.mode >= 2) {
		return pool_harness(s.seed, atoi(argv[2]), atoi(argv[3]), s.cap, rounds);
	}
	for (int i = 0; i < s.pipes; ++i) {
		struct pipe_* p = &s.p[i];
		p->producers = atoi(argv[2]);
		p->items = atoi(argv[3]);
		p->f = new_t_(fifo, long, s.cap);
		p->f->input_count = p->producers;
	}
	for (int r = 0; r < rounds && !s.bad; ++r) {
		pthread_t th[2 * MAXP + 1];
		struct arg as[2 * MAXP + 1];
		int n = 0;
		for (int i = 0; i < s.pipes; ++i) {
			struct pipe_* p = &s.p[i];
			if (r > 0) {
				if ((s.seed + r) % 3 == 0) { /* another capacity */
					s.cap = p->producers + 1 + (s.seed + r) % 7;
					fifo_resize(p->f, s.cap);
				}
				fifo_reset(p->f);
			}
			p->preset = p->preset_next = 0;
			if ((s.seed / 3 + r) % 4 == 0) { /* start with a full one */
				p->preset = s.cap - 1;
				for (long k = 0; k < p->preset; ++k) {
					long item = ((long)MAXP << 32) | k;
					vec_set_at(p->f->buf, k, &item, 1);
				}
				fifo_set_full(p->f);
			}
			p->left = p->producers;
			for (int k = 0; k < p->producers; ++k) {
				p->next[k] = 0;
				p->added[k] = 0;
			}
		}
		as[n] = (struct arg) {&s, 0, 0, r};
		pthread_create(&th[n], NULL, consume, &as[n]);
		++n;
		int linked = s.pipes == 2 && s.mode == 0 && s.seed % 2;
		for (int i = 0; i < (linked ? 1 : s.pipes); ++i) {
			for (int k = 0; k < s.p[i].producers; ++k) {
				as[n] = (struct arg) {&s, i, k, r};
				pthread_create(&th[n], NULL, linked ? produce_two : produce, &as[n]);
				++n;
			}
		}
		for (int i = 0; i < n; ++i) {
			pthread_join(th[i], NULL);
		}
		for (int i = 0; i < s.pipes && !s.bad; ++i) {
			struct pipe_* p = &s.p[i];
			for (int k = 0; k < p->producers; ++k) {
				if (p->next[k] > p->added[k]) {
					s.bad = 1;
					fprintf(stderr, "received more than was added\n");
				}
			}
		}
	}
	for (int i = 0; i < s.pipes; ++i) {
		delete_(fifo, s.p[i].f);
	}
	return s.bad ? FQL_FAIL : FQL_GOOD;
}
