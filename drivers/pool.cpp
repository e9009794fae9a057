// the header side of the thread pool: enqueue() and for_each() against a recording stand-in for the compiled side,
// which checks the protocol (lock, acquire, construct, unlock), then hands every task to a worker as the pool would
#include <muu/thread_pool.h>
#include <muu/span.h>
#include <new>
#include <utility>
#include "ob.h"
#undef I
#undef P
using u8 = unsigned char;
using u64 = unsigned long;
using muu::impl::thread_pool_task;
#ifndef SHARED
	#define SHARED 1
#endif
#ifndef MOVED
	#define MOVED 0
#endif
#define IF(ret, name) EX ret CAT(i__, name)
#define SF(ret, name) EX ret CAT(s__, name)
#define LIM 10
#define MUU_COMMA ,
#define START(T) T(T(x[0]) >> 5)

struct fake
{
	u64 workers, capacity;
	bool locked, shared;
	u64 queue, room, tasks, locks, waits;
	u64 qs[2 * LIM]; // the queues that lock() will return
	bool bad;
	u64 gone;
	alignas(64) unsigned char slots[LIM][sizeof(thread_pool_task)];
	thread_pool_task& slot(u64 i) { return *std::launder(reinterpret_cast<thread_pool_task*>(slots[i])); }
};
extern "C"
{
	
	__attribute__((always_inline)) void* muu_impl_thread_pool_create(u64 where, u64, muu::string_param*, void*) { return reinterpret_cast<void*>(where); }
	__attribute__((always_inline)) void muu_impl_thread_pool_destroy(void* p) noexcept { static_cast<fake*>(p)->gone++; }
	__attribute__((always_inline)) u64 muu_impl_thread_pool_lock(void* p) noexcept
	{
		fake& f = *static_cast<fake*>(p);
		f.bad |= f.locked;
		f.locked = true;
		f.shared = false;
		f.room = 1;
		f.queue = f.qs[f.locks++];
		return f.queue;
	}
	__attribute__((always_inline)) u64 muu_impl_thread_pool_lock_multiple(void* p, u64 n) noexcept
	{
		fake& f = *static_cast<fake*>(p);
		f.bad |= f.locked || n == 0;
		if (!SHARED)
			return u64(-1);
		f.locked = true;
		f.shared = true;
		f.room = n;
		f.queue = f.qs[f.locks++];
		return f.queue;
	}
	__attribute__((always_inline)) void* muu_impl_thread_pool_acquire(void* p, u64 q) noexcept
	{
		fake& f = *static_cast<fake*>(p);
		f.bad |= !f.locked || q != f.queue || f.room == 0;
		f.room--;
		return f.slots[f.tasks++];
	}
	__attribute__((always_inline)) void muu_impl_thread_pool_unlock(void* p, u64 q) noexcept
	{
		fake& f = *static_cast<fake*>(p);
		f.bad |= !f.locked || q != f.queue;
		// every acquired slot holds a task before the queue is released
		for (u64 i = 0; i < LIM; i++)
			if (i < f.tasks)
				f.bad |= !f.slot(i).action_invoker;
		f.locked = false;
	}
	__attribute__((always_inline)) void muu_impl_thread_pool_wait(void* p) noexcept { static_cast<fake*>(p)->waits++; }
	__attribute__((always_inline)) u64 muu_impl_thread_pool_workers(void* p) noexcept { return static_cast<fake*>(p)->workers; }
	__attribute__((always_inline)) u64 muu_impl_thread_pool_capacity(void* p) noexcept { return static_cast<fake*>(p)->capacity; }
}
inline __attribute__((always_inline)) muu::string_param::string_param() noexcept {}
inline __attribute__((always_inline)) muu::string_param::~string_param() noexcept {}

INL void prepare(fake& f, u64 workers, const u64* qs)
{
	f.workers = workers;
	f.capacity = 100;
	f.locked = f.shared = f.bad = false;
	f.queue = f.room = f.tasks = f.locks = f.waits = f.gone = 0;
	for (u64 i = 0; i < 2 * LIM; i++)
		f.qs[i] = qs[i] & 0xff;
	for (u64 i = 0; i < LIM; i++)
	{
		for (u64 k = 0; k < sizeof(thread_pool_task); k++)
			f.slots[i][k] = 0x5a;
		reinterpret_cast<thread_pool_task*>(f.slots[i])->action_invoker = nullptr;
	}
}
INL muu::thread_pool open(fake& f) { return muu::thread_pool{ reinterpret_cast<u64>(&f) }; }

// what is seen of the tasks: how often each item was visited, with which values, by which batch
struct seen
{
	u64 runs[LIM];
	u64 value[LIM];
	bool stray;
	u64 now, used;
};
INL void clear(seen& s)
{
	s.now = LIM;
	s.used = 0;
	for (u64 i = 0; i < LIM; i++)
		s.runs[i] = s.value[i] = 0;
	s.stray = false;
}
INL void note(seen& s, u64 i, u64 v)
{
	if (i < LIM)
		s.runs[i]++, s.value[i] = v;
	else
		s.stray = true;
}
// a task was told that it is batch b: all of one batch is run by one task, and no two tasks are the same batch
INL void batch(seen& s, u64 b)
{
	s.stray |= s.now != LIM && s.now != b;
	s.now = b;
}
INL void trap(muu::impl::thread_pool_task_action&&) noexcept {}
// what a worker does: run once, destroy once; or take the task out of the queue first
INL void run(fake& f, const u64* w, seen& s)
{
	for (u64 i = 0; i < LIM; i++)
		if (i < f.tasks)
		{
			s.now = LIM;
#if MOVED
			alignas(64) unsigned char room[sizeof(thread_pool_task)];
			for (auto& c : room)
				c = 0xa5;
			reinterpret_cast<thread_pool_task*>(room)->action_invoker = trap;
			auto& t = *::new (room) thread_pool_task{ static_cast<thread_pool_task&&>(f.slot(i)) };
			f.slot(i).~thread_pool_task();
			t(w[i]);
			t.~thread_pool_task();
#else
			f.slot(i)(w[i]);
			f.slot(i).~thread_pool_task();
#endif
			s.stray |= s.now != LIM && (s.used >> (s.now & 63) & 1);
			s.used |= u64(1) << (s.now & 63);
		}
	f.bad |= f.locked;
}

struct result
{
	u64 runs[LIM];
	u64 value[LIM];
	bool stray, bad;
	u64 gone, waits, alive;
};
INL void finish(result* R r, const seen& s, const fake& f, u64 alive = 0)
{
	for (u64 i = 0; i < LIM; i++)
		r->runs[i] = s.runs[i], r->value[i] = s.value[i];
	r->stray = s.stray;
	r->bad = f.bad;
	r->gone = f.gone;
	r->waits = f.waits;
	r->alive = alive;
}
INL void expect(result* R r, u64 n)
{
	for (u64 i = 0; i < LIM; i++)
		r->runs[i] = i < n, r->value[i] = 0;
	r->stray = r->bad = false;
	r->gone = 1;
	r->waits = r->alive = 0;
}
#define ARGS result *R r, const u64 *R q, const u64 *R w, const u64 *R x
#define OPEN(n) seen s; clear(s); fake f; prepare(f, n, q); { auto pool = open(f);
#define CLOSE } run(f, w, s); finish(r, s, f);

// ---------------------------------------------------------------------------------------------- enqueue: kinds of callable
IF(void, lambda_plain)(ARGS) { OPEN(2) pool.enqueue([&s, v = x[0]]() noexcept { note(s, 0, v); }); CLOSE }
SF(void, lambda_plain)(ARGS) { expect(r, 1); r->value[0] = x[0]; }
IF(void, lambda_index)(ARGS) { OPEN(2) pool.enqueue([&s, v = x[0]](u64 i) noexcept { note(s, 0, v + i); }); CLOSE }
SF(void, lambda_index)(ARGS) { expect(r, 1); r->value[0] = x[0] + w[0]; }
IF(void, lambda_three)(ARGS)
{
	OPEN(2) pool.enqueue([&s, v = x[0]](u64 i) noexcept { note(s, 0, v + i); })
		.enqueue([&s, v = x[1], y = x[2]]() noexcept { note(s, 1, v - y); })
		.enqueue([&s](u64 i) noexcept { note(s, 2, i); });
	CLOSE
}
SF(void, lambda_three)(ARGS) { expect(r, 3); r->value[0] = x[0] + w[0]; r->value[1] = x[1] - x[2]; r->value[2] = w[2]; }

// a callable of the full size of the buffer
struct full { u64 v[6]; seen* s; void operator()(u64 i) noexcept { note(*s, 0, v[0] + 3 * v[1] + 5 * v[2] + 7 * v[3] + 11 * v[4] + 13 * v[5] + i); } };
IF(void, full_buffer)(ARGS) { OPEN(1) pool.enqueue(full{ { x[0], x[1], x[2], x[3], x[4], x[5] }, &s }); CLOSE }
SF(void, full_buffer)(ARGS) { expect(r, 1); r->value[0] = x[0] + 3 * x[1] + 5 * x[2] + 7 * x[3] + 11 * x[4] + 13 * x[5] + w[0]; }

// a small one passed as an lvalue is copied: later changes of the original do not matter
struct small { seen* s; u64 v; void operator()() noexcept { note(*s, 0, v); v++; } };
IF(void, lvalue_copied)(ARGS)
{
	OPEN(1) small t{ &s, x[0] };
	pool.enqueue(t);
	t.v = x[1];
	CLOSE
}
SF(void, lvalue_copied)(ARGS) { expect(r, 1); r->value[0] = x[0]; }
struct constcall { seen* s; u64 v; void operator()(u64 i) const noexcept { note(*s, 0, v ^ i); } };
IF(void, const_lvalue)(ARGS) { OPEN(1) const constcall t{ &s, x[0] }; pool.enqueue(t); CLOSE }
SF(void, const_lvalue)(ARGS) { expect(r, 1); r->value[0] = x[0] ^ w[0]; }
// one too large for the buffer is referred to: the original is run
struct large { seen* s; u64 v, pad[9]; void operator()() noexcept { note(*s, 0, v); v++; } };
IF(void, lvalue_referred)(ARGS)
{
	seen s;
	clear(s);
	fake f;
	prepare(f, 1, q);
	large t{ &s, x[0], {} };
	{
		auto pool = open(f);
		pool.enqueue(t);
	}
	t.v = x[1];
	run(f, w, s);
	finish(r, s, f);
	r->alive = t.v - x[1];
}
SF(void, lvalue_referred)(ARGS) { expect(r, 1); r->value[0] = x[1]; r->alive = 1; }

// functions
static seen* shared_seen;
INL void fn_plain() noexcept { note(*shared_seen, 0, 77); }
INL void fn_index(u64 i) noexcept { note(*shared_seen, 1, i); }
IF(void, functions)(ARGS)
{
	OPEN(1) shared_seen = &s;
	pool.enqueue(fn_plain);
	pool.enqueue(&fn_index);
	CLOSE
}
SF(void, functions)(ARGS) { expect(r, 2); r->value[0] = 77; r->value[1] = w[1]; }
IF(void, stateless)(ARGS)
{
	OPEN(1) shared_seen = &s;
	pool.enqueue([]() noexcept { note(*shared_seen, 0, 78); });
	pool.enqueue([](u64 i) noexcept { note(*shared_seen, 1, i); });
	const auto l = [](u64 i) noexcept { note(*shared_seen, 2, i); };
	pool.enqueue(l);
	CLOSE
}
SF(void, stateless)(ARGS) { expect(r, 3); r->value[0] = 78; r->value[1] = w[1]; r->value[2] = w[2]; }

// callables with a life of their own: every object that is made is destroyed, what runs is alive and holds the value
struct life { seen* s; u64 alive, dead_runs; };
template <int Kind>
struct owner
{
	life* l;
	u64 v;
	bool live;
	INL owner* self(owner* p) { return p; }
	owner(life& L, u64 V) noexcept : l{ &L }, v{ V }, live{ true } { l->alive++; }
	owner(owner&& o) noexcept : l{ o.l }, v{ o.v }, live{ o.live } { o.live = false; l->alive++; }
	owner(const owner& o) noexcept : l{ o.l }, v{ o.v }, live{ o.live } { l->alive++; }
	~owner() noexcept { l->alive--; }
	void operator()(u64 i) noexcept
	{
		l->dead_runs += !live;
		note(*l->s, 0, v + i);
	}
};
template <> // only copied
struct owner<1>
{
	life* l;
	u64 v;
	owner(life& L, u64 V) noexcept : l{ &L }, v{ V } { l->alive++; }
	owner(const owner& o) noexcept : l{ o.l }, v{ o.v } { l->alive++; }
	~owner() noexcept { l->alive--; }
	void operator()(u64 i) noexcept { note(*l->s, 0, v + i); }
};
template <> // only assigned
struct owner<2>
{
	life* l = nullptr;
	u64 v = 0;
	owner() noexcept = default;
	owner(life& L, u64 V) noexcept : l{ &L }, v{ V } {}
	owner(const owner&) = delete;
	owner& operator=(owner&& o) noexcept { l = o.l, v = o.v, o.l = nullptr; return *this; }
	~owner() noexcept { if (l) l->alive--; }
	void operator()(u64 i) noexcept { note(*l->s, 0, v + i); }
};
template <> // only copy-assigned
struct owner<3>
{
	life* l = nullptr;
	u64 v = 0;
	owner() noexcept = default;
	owner(life& L, u64 V) noexcept : l{ &L }, v{ V } { l->alive++; }
	owner(const owner&) = delete;
	owner& operator=(const owner& o) noexcept { l = o.l, v = o.v, l->alive++; return *this; }
	~owner() noexcept { if (l) l->alive--; }
	void operator()(u64 i) noexcept { note(*l->s, 0, v + i); }
};
#define OWN(k, name, how)                                                                                              \
	IF(void, name)(ARGS)                                                                                               \
	{                                                                                                                  \
		seen s;                                                                                                        \
		clear(s);                                                                                                      \
		fake f;                                                                                                        \
		prepare(f, 1, q);                                                                                              \
		life l{ &s, k == 2, 0 };                                                                                       \
		{                                                                                                              \
			auto pool = open(f);                                                                                       \
			owner<k> t{ l, x[0] };                                                                                     \
			pool.enqueue(how);                                                                                         \
		}                                                                                                              \
		run(f, w, s);                                                                                                     \
		finish(r, s, f, l.alive + l.dead_runs);                                                                        \
	}                                                                                                                  \
	SF(void, name)(ARGS) { expect(r, 1); r->value[0] = x[0] + w[0]; }
OWN(0, owner_moved, static_cast<owner<0>&&>(t))
OWN(0, owner_copied, t)
OWN(1, owner_copy_only, t)
OWN(1, owner_copy_only_rvalue, static_cast<owner<1>&&>(t))
OWN(2, owner_assigned, static_cast<owner<2>&&>(t))
OWN(3, owner_copy_assigned, t)

// ---------------------------------------------------------------------------------------------- for_each over integers
// item i of the range is start + i (or, reversed, end + 1 + i); each is visited once, by one of the batches 0 to workers - 1
#define FOREACH(name, T, workers, count, from, to, base)                                                               \
	IF(void, name)(ARGS)                                                                                               \
	{                                                                                                                  \
		OPEN(workers) const T start = START(T);                                                                         \
		(void)start;                                                                                                   \
		pool.for_each(T(from), T(to), [&s, start](T i, u64 b) noexcept                                                 \
		{                                                                                                              \
			(void)start;                                                                                               \
			note(s, u64(i) - u64(T(base)), 0);                                                                         \
			s.stray |= b >= workers;                                                                                   \
			batch(s, b);                                                                                               \
		});                                                                                                            \
		CLOSE                                                                                                          \
	}                                                                                                                  \
	SF(void, name)(ARGS) { expect(r, count); }
#define FE_W(T, c)                                                                                                     \
	FOREACH(CAT(CAT(each_, T), CAT(_1w_, c)), T, 1, c, start, start + c, start)                                        \
	FOREACH(CAT(CAT(each_, T), CAT(_2w_, c)), T, 2, c, start, start + c, start)                                        \
	FOREACH(CAT(CAT(each_, T), CAT(_3w_, c)), T, 3, c, start, start + c, start)                                        \
	FOREACH(CAT(CAT(each_, T), CAT(_5w_, c)), T, 5, c, start, start + c, start)
using i32 = int;
using i64 = long;
using u32 = unsigned;
using i16 = short;
enum colour : int {};
FE_W(i32, 0) FE_W(i32, 1) FE_W(i32, 2) FE_W(i32, 3) FE_W(i32, 5) FE_W(i32, 7)
FE_W(i64, 1) FE_W(i64, 4) FE_W(i64, 8) FE_W(i64, 10)
// reversed: (to, from] is visited
#define FE_R(T, c)                                                                                                     \
	FOREACH(CAT(CAT(back_, T), CAT(_1w_, c)), T, 1, c, start + c, start, start + 1)                                    \
	FOREACH(CAT(CAT(back_, T), CAT(_3w_, c)), T, 3, c, start + c, start, start + 1)
FE_R(i32, 1) FE_R(i32, 4) FE_R(i64, 7)
#undef START
#define START(T) T(FIRST)
#define FE_C(T, c)                                                                                                     \
	FOREACH(CAT(CAT(CAT(const_, T), _2w_), CAT(c, CAT(_, NAME))), T, 2, c, start, start + c, start)                    \
	FOREACH(CAT(CAT(CAT(const_, T), _3w_), CAT(c, CAT(_, NAME))), T, 3, c, start, start + c, start)
#define FIRST 0
#define NAME zero
FE_C(u32, 4) FE_C(u64, 7) FE_C(colour, 5)
#undef FIRST
#undef NAME
#define FIRST 0x7ffffffeu
#define NAME mid
FE_C(u32, 7)
#undef FIRST
#undef NAME
#define FIRST 0xfffffff0u
#define NAME top
FE_C(u32, 8)
#undef FIRST
#undef NAME
#define FIRST 0x7ffffffffffffffcul
#define NAME mid
FE_C(u64, 8)
#undef FIRST
#undef NAME
#define FIRST 0x7ffffffel
#define NAME wide
FE_C(i64, 7)
#undef FIRST
#undef NAME
#define FIRST -0x1000000000003l
#define NAME far
FE_C(i64, 7)
#undef FIRST
#undef NAME
#define FIRST -3
#define NAME neg
FE_C(i32, 7) FE_C(i64, 8) FE_C(colour, 6)
#undef FIRST
#undef NAME
#ifdef NARROW
	#define FIRST 100
	#define NAME hundred
FE_C(i16, 7) FE_C(u8, 8)
	#undef FIRST
	#undef NAME
#endif

// arity: a task may leave out the batch, or the index as well; a mutable one has a copy per batch
IF(void, each_index_only)(ARGS) { OPEN(3) pool.for_each(7, [&s](int i) noexcept { note(s, u64(i), 0); }); CLOSE }
SF(void, each_index_only)(ARGS) { expect(r, 7); }
IF(void, each_nothing)(ARGS) { u64 n = 0; OPEN(3) pool.for_each(0, 5, [&s, &n]() noexcept { note(s, n++, 0); }); CLOSE }
SF(void, each_nothing)(ARGS) { expect(r, 5); }
IF(void, range_same)(ARGS) { OPEN(2) pool.for_range(2, 5, [&s](int i, u64) noexcept { note(s, u64(i) - 2, 0); }); CLOSE }
SF(void, range_same)(ARGS) { expect(r, 3); }
IF(void, each_stateless)(ARGS) { OPEN(2) shared_seen = &s; pool.for_each(4, [](int i, u64 b) noexcept { note(*shared_seen, u64(i), b > 1); }); CLOSE }
SF(void, each_stateless)(ARGS) { expect(r, 4); }
INL void fn_each(int i, u64 b) noexcept { note(*shared_seen, u64(i), b > 1); }
IF(void, each_function)(ARGS) { OPEN(2) shared_seen = &s; pool.for_each(2, fn_each).for_each(2, 5, &fn_each); CLOSE }
SF(void, each_function)(ARGS) { expect(r, 5); }
struct largeeach { seen* s; u64 v, pad[9]; void operator()(int i) noexcept { note(*s, u64(i), v); } };
IF(void, each_lvalue)(ARGS)
{
	seen s;
	clear(s);
	fake f;
	prepare(f, 2, q);
	largeeach t{ &s, x[0], {} };
	{
		auto pool = open(f);
		pool.for_each(5, t);
	}
	t.v = x[1];
	run(f, w, s);
	finish(r, s, f);
}
SF(void, each_lvalue)(ARGS)
{
	expect(r, 5);
	for (int i = 0; i < 5; i++) r->value[i] = x[1];
}
// too large to be stored beside the range of a batch
struct mideach { u64 v[4]; seen* s; void operator()(long i, u64) noexcept { note(*s, u64(i), v[i & 3]); } };
IF(void, each_mid)(ARGS)
{
	seen s;
	clear(s);
	fake f;
	prepare(f, 2, q);
	mideach t{ { x[0], x[1], x[2], x[3] }, &s };
	{
		auto pool = open(f);
		pool.for_each(3l, t);
	}
	run(f, w, s);
	finish(r, s, f);
}
SF(void, each_mid)(ARGS)
{
	expect(r, 3);
	for (int i = 0; i < 3; i++) r->value[i] = x[i];
}
// each batch owns a copy of the task, all copies die
IF(void, each_owner)(ARGS)
{
	seen s;
	clear(s);
	fake f;
	prepare(f, 2, q);
	life l{ &s, 0, 0 };
	struct each : owner<0>
	{
		using owner<0>::owner;
		void operator()(int i, u64 b) noexcept { l->dead_runs += !live || b > 1; note(*l->s, u64(i), v); }
	};
	{
		auto pool = open(f);
		pool.for_each(5, each{ l, x[0] });
		each t{ l, x[1] };
		pool.for_each(5, 8, t);
	}
	run(f, w, s);
	finish(r, s, f, l.alive + l.dead_runs);
}
SF(void, each_owner)(ARGS)
{
	expect(r, 8);
	for (int i = 0; i < 8; i++) r->value[i] = x[i >= 5];
}

// ---------------------------------------------------------------------------------------------- for_each over elements
struct fwd // forward iterator that only knows ++, * and ==
{
	using iterator_category = std::forward_iterator_tag;
	using value_type = u64;
	using difference_type = long;
	using pointer = const u64*;
	using reference = const u64&;
	const u64* p;
	const u64& operator*() const noexcept { return *p; }
	fwd& operator++() noexcept { ++p; return *this; }
	fwd operator++(int) noexcept { fwd t = *this; ++p; return t; }
	friend bool operator==(fwd a, fwd b) noexcept { return a.p == b.p; }
	friend bool operator!=(fwd a, fwd b) noexcept { return a.p != b.p; }
};
template <u64 N> struct list { const u64* b; fwd begin() const noexcept { return { b }; } fwd end() const noexcept { return { b + N }; } };
template <u64 N> struct cont { u64* b; u64* begin() noexcept { return b; } u64* end() noexcept { return b + N; } };
struct fatit : fwd { u64 more = 0; fatit() = default; fatit(const u64* q) : fwd{ q } {} fatit& operator++() noexcept { ++p; return *this; } fatit operator++(int) noexcept { fatit t = *this; ++p; return t; } };
template <u64 N> struct fat { const u64* b; fatit begin() const noexcept { return { b }; } fatit end() const noexcept { return { b + N }; } const u64* data() const noexcept { return b; } u64 size() const noexcept { return N; } };
#define ELEMS(name, workers, count, DATA, ...)                                                                         \
	IF(void, name)(ARGS)                                                                                               \
	{                                                                                                                  \
		u64 data[LIM] = {};                                                                                            \
		const u64* const base = data;                                                                                  \
		(void)base;                                                                                                    \
		OPEN(workers) auto task = [&s, base](const u64& e, u64 b) noexcept                                             \
		{                                                                                                              \
			note(s, u64(&e - base), 0);                                                                                \
			s.stray |= b >= workers;                                                                                   \
			batch(s, b);                                                                                               \
		};                                                                                                             \
		DATA;                                                                                                          \
		__VA_ARGS__;                                                                                                   \
		CLOSE                                                                                                          \
	}                                                                                                                  \
	SF(void, name)(ARGS) { expect(r, count); }
#define EL_W(c)                                                                                                        \
	ELEMS(CAT(ptr_1w_, c), 1, c, , pool.for_each(data, data + c, task))                                                \
	ELEMS(CAT(ptr_2w_, c), 2, c, , pool.for_each(data, data + c, task))                                                \
	ELEMS(CAT(ptr_3w_, c), 3, c, , pool.for_each(data, data + c, task))
EL_W(0) EL_W(1) EL_W(2) EL_W(5) EL_W(7)
ELEMS(ptr_back, 2, 0, , pool.for_each(data + 4, data, task))
ELEMS(fwd_2w_5, 2, 5, , pool.for_each(fwd{ data }, fwd{ data + 5 }, task))
ELEMS(fwd_3w_2, 3, 2, , pool.for_each(fwd{ data }, fwd{ data + 2 }, task))
ELEMS(list_2w_4, 2, 4, list<4> c{ data }, pool.for_each(c, task))
ELEMS(list_3w_0, 3, 0, list<0> c{ data }, pool.for_each(c, task))
ELEMS(fat_2w_5, 2, 5, fat<5> c{ data }, pool.for_each(c, task))
ELEMS(cont_2w_6, 2, 6, cont<6> c{ data }, pool.for_each(c, task))
ELEMS(array_3w_10, 3, 10, , pool.for_each(data, task))
ELEMS(span_2w_7, 2, 7, (muu::span<u64>{ data, 7u }), pool.for_each(muu::span<u64>{ data, 7u }, task))
ELEMS(elem_only, 2, 5, auto t1 = [&s MUU_COMMA base](const u64& e) noexcept { note(s MUU_COMMA u64(&e - base) MUU_COMMA 0); }, pool.for_each(data, data + 5, t1))
ELEMS(elem_nothing, 2, 5, auto t0 = [&s]() noexcept { s.value[9]++; for (u64 i = 0; i < 5; i++) s.runs[i] = s.value[9] == 5; s.value[9] %= 5; }, pool.for_each(data, data + 5, t0))
// each batch owns a copy of the task
IF(void, elem_owner)(ARGS)
{
	u64 data[LIM] = {};
	const u64* const base = data;
	seen s;
	clear(s);
	fake f;
	prepare(f, 2, q);
	life l{ &s, 0, 0 };
	struct each : owner<0>
	{
		const u64* base;
		each(life& L, u64 V, const u64* b) noexcept : owner<0>(L, V), base{ b } {}
		void operator()(u64& e, u64 b) noexcept { l->dead_runs += !live || b > 1; note(*l->s, u64(&e - base), v); }
	};
	{
		auto pool = open(f);
		pool.for_each(data, data + 5, each{ l, x[0], base });
		each t{ l, x[1], base };
		pool.for_each(data + 5, data + 8, t);
	}
	run(f, w, s);
	finish(r, s, f, l.alive + l.dead_runs);
}
SF(void, elem_owner)(ARGS)
{
	expect(r, 8);
	for (int i = 0; i < 8; i++) r->value[i] = x[i >= 5];
}
// elements are passed by reference: the task may change them
IF(void, elements_changed)(ARGS)
{
	u64 data[3] = { x[0], x[1], x[2] };
	OPEN(2) pool.for_each(data, [](u64& e) noexcept { e = ~e; });
	CLOSE
	for (int i = 0; i < 3; i++) r->value[i] = data[i];
}
SF(void, elements_changed)(ARGS)
{
	expect(r, 0);
	for (int i = 0; i < 3; i++) r->value[i] = ~x[i];
}

// ---------------------------------------------------------------------------------------------- the pool object itself
IF(void, pool_moved)(ARGS)
{
	seen s;
	clear(s);
	fake f, g;
	prepare(f, 1, q);
	prepare(g, 1, q);
	u64 after;
	{
		auto a = open(f);
		auto b = open(g);
		a = static_cast<muu::thread_pool&&>(b);
		after = f.gone + 2 * g.gone; // the storage of a goes
		muu::thread_pool c{ static_cast<muu::thread_pool&&>(a) };
		c.enqueue([&s]() noexcept { note(s, 0, 0); });
		after += 4 * g.gone;
		c.wait();
	}
	run(g, w, s);
	finish(r, s, g, after + 8 * f.gone);
}
SF(void, pool_moved)(ARGS) { expect(r, 1); r->alive = 1 + 8; r->waits = 1; }
IF(void, pool_self)(ARGS)
{
	OPEN(1) auto& same = pool;
	pool = static_cast<muu::thread_pool&&>(same);
	pool.enqueue([&s, &f]() noexcept { note(s, 0, f.workers); });
	CLOSE
}
SF(void, pool_self)(ARGS) { expect(r, 1); r->value[0] = 1; }
IF(void, pool_numbers)(ARGS)
{
	OPEN(3) f.workers = x[0];
	f.capacity = x[1];
	s.value[0] = pool.workers();
	s.value[1] = pool.capacity();
	pool.wait();
	CLOSE
}
SF(void, pool_numbers)(ARGS) { expect(r, 0); r->value[0] = x[0]; r->value[1] = x[1]; r->waits = 1; }

// ---------------------------------------------------------------------------------------------- division into batches
// every number of jobs, 1 to 8 batches: nothing lost, nothing added, no batch empty that need not be
#define BATCH(b)                                                                                                       \
	IF(u64, CAT(batches_, b))(u8 jobs)                                                                                 \
	{                                                                                                                  \
		muu::impl::batch_size_generator<u32> g{ jobs, u32(b) };                                                        \
		u64 sum = 0, used = 0;                                                                                         \
		bool gap = false, ended = false;                                                                               \
		for (int i = 0; i <= b; i++)                                                                                   \
		{                                                                                                              \
			const u32 n = g();                                                                                         \
			gap |= ended && n;                                                                                         \
			ended |= !n;                                                                                               \
			sum += n;                                                                                                  \
			used += !!n;                                                                                               \
		}                                                                                                              \
		return (sum & 0xffffff) | used << 32 | u64(gap) << 63;                                                         \
	}                                                                                                                  \
	SF(u64, CAT(batches_, b))(u8 jobs) { return u64(jobs) | u64(jobs < b ? jobs : b) << 32; }
BATCH(1) BATCH(2) BATCH(3) BATCH(4) BATCH(5) BATCH(7) BATCH(8)
