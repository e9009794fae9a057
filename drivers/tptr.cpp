// tagged pointers: packing, unpacking and updating, against the definition "address in the aligned bits, tag in the free bits"
#include <muu/tagged_ptr.h>
#include "ob.h"
#undef I
#undef R
using namespace muu;
using ul = unsigned long;
#define IF(ret, name) EX ret CAT(i__, name)
#define SF(ret, name) EX ret CAT(s__, name)
#ifndef MUU_TAGGED_PTR_BITS
	#define USED 64
#elif MUU_TAGGED_PTR_BITS == 0
	#define USED 64
#else
	#define USED MUU_TAGGED_PTR_BITS
#endif
constexpr int FREE = 64 - USED;
template <int A> struct obj;
#define OBJ(A) template <> struct obj<A> { alignas(A) char c[A]; };
OBJ(2) OBJ(8) OBJ(64) OBJ(256) OBJ(1024) OBJ(65536)
template <int A> constexpr int low = __builtin_ctz(A);
template <int A> constexpr int tagbits = low<A> + FREE;
template <int A> constexpr ul tagmask = tagbits<A> >= 64 ? ~0ul : (1ul << (tagbits<A> & 63)) - 1;
// an address that can be stored: aligned and canonical
template <int A>
INL ul addr(ul p)
{
	if (FREE) p = ul((long)(p << FREE) >> FREE);
	return p & ~ul(A - 1);
}
template <int A>
INL obj<A>* ptr(ul p) { return reinterpret_cast<obj<A>*>(addr<A>(p)); }
template <typename T> INL ul num(T* p) { return reinterpret_cast<ul>(p); }
#define O3 ul* __restrict o
#define OUT(t)                                                                                                         \
	o[0] = num((t).ptr());                                                                                             \
	o[1] = ul((t).tag());                                                                                              \
	o[2] = bool(t);
#define EXPECT(p, t)                                                                                                   \
	o[0] = (p);                                                                                                        \
	o[1] = (t);                                                                                                        \
	o[2] = (p) != 0;
#define ALL(A)                                                                                                         \
	IF(void, ctor_ptr_##A)(ul p, O3) { tagged_ptr<obj<A>> t{ ptr<A>(p) }; OUT(t) }                                     \
	SF(void, ctor_ptr_##A)(ul p, O3) { EXPECT(addr<A>(p), 0) }                                                         \
	IF(void, ctor_both_##A)(ul p, ul g, O3) { tagged_ptr<obj<A>> t{ ptr<A>(p), g & tagmask<A> }; OUT(t) }              \
	SF(void, ctor_both_##A)(ul p, ul g, O3) { EXPECT(addr<A>(p), g & tagmask<A>) }                                     \
	IF(void, reset_##A)(ul p, ul g, ul q, ul h, O3)                                                                    \
	{                                                                                                                  \
		tagged_ptr<obj<A>> t{ ptr<A>(p), g & tagmask<A> };                                                             \
		t.reset(ptr<A>(q), h & tagmask<A>);                                                                            \
		OUT(t)                                                                                                         \
	}                                                                                                                  \
	SF(void, reset_##A)(ul p, ul g, ul q, ul h, O3) { EXPECT(addr<A>(q), h & tagmask<A>) }                             \
	IF(void, reset_ptr_##A)(ul p, ul g, ul q, O3)                                                                      \
	{                                                                                                                  \
		tagged_ptr<obj<A>> t{ ptr<A>(p), g & tagmask<A> };                                                             \
		t.reset(ptr<A>(q));                                                                                            \
		OUT(t)                                                                                                         \
	}                                                                                                                  \
	SF(void, reset_ptr_##A)(ul p, ul g, ul q, O3) { EXPECT(addr<A>(q), 0) }                                            \
	IF(void, reset_none_##A)(ul p, ul g, O3)                                                                           \
	{                                                                                                                  \
		tagged_ptr<obj<A>> t{ ptr<A>(p), g & tagmask<A> };                                                             \
		t.reset();                                                                                                     \
		OUT(t)                                                                                                         \
	}                                                                                                                  \
	SF(void, reset_none_##A)(ul p, ul g, O3) { EXPECT(0ul, 0) }                                                        \
	IF(void, set_ptr_##A)(ul p, ul g, ul q, O3)                                                                        \
	{                                                                                                                  \
		tagged_ptr<obj<A>> t{ ptr<A>(p), g & tagmask<A> };                                                             \
		t.ptr(ptr<A>(q));                                                                                              \
		OUT(t)                                                                                                         \
	}                                                                                                                  \
	SF(void, set_ptr_##A)(ul p, ul g, ul q, O3) { EXPECT(addr<A>(q), g & tagmask<A>) }                                 \
	IF(void, assign_ptr_##A)(ul p, ul g, ul q, O3)                                                                     \
	{                                                                                                                  \
		tagged_ptr<obj<A>> t{ ptr<A>(p), g & tagmask<A> };                                                             \
		t = ptr<A>(q);                                                                                                 \
		OUT(t)                                                                                                         \
	}                                                                                                                  \
	SF(void, assign_ptr_##A)(ul p, ul g, ul q, O3) { EXPECT(addr<A>(q), g & tagmask<A>) }                              \
	IF(void, set_tag_##A)(ul p, ul g, ul h, O3)                                                                        \
	{                                                                                                                  \
		tagged_ptr<obj<A>> t{ ptr<A>(p), g & tagmask<A> };                                                             \
		t.tag(h & tagmask<A>);                                                                                         \
		OUT(t)                                                                                                         \
	}                                                                                                                  \
	SF(void, set_tag_##A)(ul p, ul g, ul h, O3) { EXPECT(addr<A>(p), h & tagmask<A>) }                                 \
	IF(void, clear_ptr_##A)(ul p, ul g, O3)                                                                            \
	{                                                                                                                  \
		tagged_ptr<obj<A>> t{ ptr<A>(p), g & tagmask<A> };                                                             \
		t.clear_ptr();                                                                                                 \
		OUT(t)                                                                                                         \
	}                                                                                                                  \
	SF(void, clear_ptr_##A)(ul p, ul g, O3) { EXPECT(0ul, g & tagmask<A>) }                                            \
	IF(void, clear_tag_##A)(ul p, ul g, O3)                                                                            \
	{                                                                                                                  \
		tagged_ptr<obj<A>> t{ ptr<A>(p), g & tagmask<A> };                                                             \
		t.clear_tag();                                                                                                 \
		OUT(t)                                                                                                         \
	}                                                                                                                  \
	SF(void, clear_tag_##A)(ul p, ul g, O3) { EXPECT(addr<A>(p), 0) }                                                  \
	IF(void, tag_bit_##A)(ul p, ul g, ul i, bool b, O3)                                                                \
	{                                                                                                                  \
		tagged_ptr<obj<A>> t{ ptr<A>(p), g & tagmask<A> };                                                             \
		i = (i & 63) % tagbits<A>;                                                                                     \
		o[3] = t.tag_bit(i);                                                                                           \
		t.tag_bit(i, b);                                                                                               \
		OUT(t)                                                                                                         \
	}                                                                                                                  \
	SF(void, tag_bit_##A)(ul p, ul g, ul i, bool b, O3)                                                                \
	{                                                                                                                  \
		i = (i & 63) % tagbits<A>;                                                                                     \
		o[3] = ((g & tagmask<A>) >> i) & 1;                                                                            \
		EXPECT(addr<A>(p), ((g & tagmask<A>)&~(1ul << i)) | ul(b) << i)                                                \
	}                                                                                                                  \
	IF(bool, can_store_ptr_##A)(ul p) { return tagged_ptr<obj<A>>::can_store_ptr(reinterpret_cast<obj<A>*>(p)); }      \
	SF(bool, can_store_ptr_##A)(ul p) { return (p & ul(A - 1)) == 0; }                                                 \
	IF(bool, can_store_tag_##A)(ul g) { return tagged_ptr<obj<A>>::can_store_tag(g); }                                 \
	SF(bool, can_store_tag_##A)(ul g) { return g <= tagmask<A>; }                                                      \
	IF(void, compare_##A)(ul p, ul g, ul q, ul h, O3)                                                                  \
	{                                                                                                                  \
		tagged_ptr<obj<A>> t{ ptr<A>(p), g & tagmask<A> }, u{ ptr<A>(q), h & tagmask<A> };                             \
		o[0] = t == u;                                                                                                 \
		o[1] = t != u;                                                                                                 \
		o[2] = t == ptr<A>(q);                                                                                         \
		o[3] = t != ptr<A>(q);                                                                                         \
		o[4] = ptr<A>(q) == t;                                                                                         \
		o[5] = ptr<A>(q) != t;                                                                                         \
		tagged_ptr<obj<A>> c{ t };                                                                                     \
		o[6] = c == t;                                                                                                 \
		o[7] = num(c.get());                                                                                           \
		o[8] = num(&*c);                                                                                               \
		o[9] = tagged_ptr<obj<A>>::max_tag;                                                                            \
	}                                                                                                                  \
	SF(void, compare_##A)(ul p, ul g, ul q, ul h, O3)                                                                  \
	{                                                                                                                  \
		const bool a = addr<A>(p) == addr<A>(q), b = (g & tagmask<A>) == (h & tagmask<A>);                             \
		o[0] = a && b;                                                                                                 \
		o[1] = !(a && b);                                                                                              \
		o[2] = o[4] = a;                                                                                               \
		o[3] = o[5] = !a;                                                                                              \
		o[6] = 1;                                                                                                      \
		o[7] = o[8] = addr<A>(p);                                                                                      \
		o[9] = tagmask<A>;                                                                                             \
	}                                                                                                                  \
	IF(void, empty_##A)(O3) { tagged_ptr<obj<A>> t; OUT(t) }                                                           \
	SF(void, empty_##A)(O3) { EXPECT(0ul, 0) }
ALL(2)
ALL(8)
ALL(64)
ALL(256)
ALL(1024)
ALL(65536)
// tags of other types, as wide as or narrower than the tag; signed values keep their bit pattern
#define TAGGED(A, T, n)                                                                                                \
	IF(void, ctor_tag_##n##_##A)(ul p, T g, O3) { tagged_ptr<obj<A>> t{ ptr<A>(p), g }; OUT(t) }                       \
	SF(void, ctor_tag_##n##_##A)(ul p, T g, O3) { EXPECT(addr<A>(p), ul(g) & ((1ul << (8 * sizeof(T))) - 1)) }         \
	IF(void, set_tag_##n##_##A)(ul p, ul h, T g, O3)                                                                   \
	{                                                                                                                  \
		tagged_ptr<obj<A>> t{ ptr<A>(p), h & tagmask<A> };                                                             \
		t.tag(g);                                                                                                      \
		OUT(t)                                                                                                         \
	}                                                                                                                  \
	SF(void, set_tag_##n##_##A)(ul p, ul h, T g, O3) { EXPECT(addr<A>(p), ul(g) & ((1ul << (8 * sizeof(T))) - 1)) }    \
	IF(void, reset_tag_##n##_##A)(ul p, ul h, T g, O3)                                                                 \
	{                                                                                                                  \
		tagged_ptr<obj<A>> t{ ptr<A>(p), h & tagmask<A> };                                                             \
		t.reset(ptr<A>(p), g);                                                                                         \
		OUT(t)                                                                                                         \
	}                                                                                                                  \
	SF(void, reset_tag_##n##_##A)(ul p, ul h, T g, O3) { EXPECT(addr<A>(p), ul(g) & ((1ul << (8 * sizeof(T))) - 1)) }
enum class es8 : signed char {};
TAGGED(256, unsigned char, u8)
TAGGED(256, signed char, s8)
TAGGED(256, es8, es8)
TAGGED(1024, unsigned char, u8)
TAGGED(1024, signed char, s8)
TAGGED(1024, es8, es8)
TAGGED(65536, short, s16)
TAGGED(65536, unsigned short, u16)
TAGGED(65536, signed char, s8)
struct pod
{
	unsigned char a;
};
struct pod2
{
	unsigned char a, b;
};
IF(void, pod_256)(ul p, ul h, unsigned char g, O3)
{
	tagged_ptr<obj<256>> t{ ptr<256>(p), pod{ g } };
	OUT(t)
	t.tag(h & 255);
	t.tag(pod{ g });
	o[3] = num(t.ptr());
	o[4] = t.tag<pod>().a;
}
SF(void, pod_256)(ul p, ul h, unsigned char g, O3)
{
	EXPECT(addr<256>(p), g)
	o[3] = addr<256>(p);
	o[4] = g;
}
IF(void, pod_1024)(ul p, ul h, unsigned char g, O3)
{
	tagged_ptr<obj<1024>> t{ ptr<1024>(p), h & tagmask<1024> };
	t.tag(pod{ g });
	OUT(t)
	o[3] = t.tag<pod>().a;
}
SF(void, pod_1024)(ul p, ul h, unsigned char g, O3)
{
	EXPECT(addr<1024>(p), g)
	o[3] = g;
}
IF(void, pod2_65536)(ul p, ul h, unsigned char g, unsigned char k, O3)
{
	tagged_ptr<obj<65536>> t{ ptr<65536>(p), pod2{ g, k } };
	OUT(t)
	t.tag(h & 0xFFFF);
	t.tag(pod2{ k, g });
	o[3] = num(t.ptr());
	o[4] = t.tag<pod2>().a;
	o[5] = t.tag<pod2>().b;
}
SF(void, pod2_65536)(ul p, ul h, unsigned char g, unsigned char k, O3)
{
	EXPECT(addr<65536>(p), (ul(k) << 8 | g))
	o[3] = addr<65536>(p);
	o[4] = k;
	o[5] = g;
}
