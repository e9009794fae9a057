SEEDS = []


def S(id, property, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits={('include/muu/' + k if '/' not in k or k.startswith('impl/') else k): v for k, v in edits.items()}, needs=needs, breaks=breaks, demo=demo.lstrip('\n'), **kw))


S('m02-inverse-cofactor', 'M02', {'matrix.h': [('det * -(MAT_GET(0, 0) * A1312 - MAT_GET(0, 1) * A0312 + MAT_GET(0, 3) * A0112),',
                                               'det * -(MAT_GET(0, 0) * A1312 - MAT_GET(0, 1) * A0312 + MAT_GET(0, 3) * A0113),')]},
  'a 4x4 matrix whose (2,1) and (3,1)/(3,0) minors differ while element (0,3) is non-zero, i.e. a general (projective, non-affine) matrix',
  'one cofactor of the 4x4 inverse uses the wrong minor, so inverse(M)*M is not the identity', r'''
#include <muu/matrix.h>
#include <cmath>
using M = muu::matrix<double, 4, 4>;
int main()
{
	M a{ 2, -1, 3, 5, 7, 4, -2, 1, 6, 8, 3, -4, 1, 9, 2, 7 };
	M p = a * M::invert(a);
	for (unsigned r = 0; r < 4; r++)
		for (unsigned c = 0; c < 4; c++)
			if (std::fabs(p(r, c) - (r == c ? 1.0 : 0.0)) > 1e-9)
				return 1;
	return 0;
}
''')

S('m03-matrix-y-branch', 'M03', {'impl/quaternion_x_matrix.h': [('''					(MAT_GET(0, 2) - MAT_GET(2, 0)) * inv_s, // scalar
					(MAT_GET(0, 1) + MAT_GET(1, 0)) * inv_s, // vector.x
					Scalar{ 0.25 } * s,						 // vector.y''', '''					(MAT_GET(2, 0) - MAT_GET(0, 2)) * inv_s, // scalar
					(MAT_GET(0, 1) + MAT_GET(1, 0)) * inv_s, // vector.x
					Scalar{ 0.25 } * s,						 // vector.y''')]},
  'a rotation whose matrix has a non-positive trace and its largest diagonal element in the y position, by an angle other than pi exactly',
  'converting such a rotation matrix to a quaternion gives the rotation with its angle mirrored', r'''
#include <muu/quaternion.h>
#include <muu/matrix.h>
#include <cmath>
using namespace muu;
int main()
{
	using V = vector<double, 3>;
	auto q	= quaternion<double>::from_axis_angle(V{ 0, 1, 0 }, 2.5);
	auto m	= matrix<double, 3, 3>::from_quaternion(q);
	auto q2 = quaternion<double>::from_rotation(m);
	V a = q * V{ 1, 2, 3 }, b = q2 * V{ 1, 2, 3 };
	for (int i = 0; i < 3; i++)
		if (!(std::fabs(a[i] - b[i]) < 1e-9))
			return 1;
	return 0;
}
''')
S('m03-slerp-long-way', 'M03', {'quaternion.h': [('start.v * inv_alpha + finish.v * alpha * correction });', 'start.v * inv_alpha + finish.v * alpha });')]},
  'interpolating between two nearly identical orientations represented by quaternions of opposite sign',
  'the nearly-parallel branch of the interpolation forgets the sign correction for the vector part', r'''
#include <muu/quaternion.h>
#include <cmath>
using namespace muu;
int main()
{
	using Q = quaternion<double>;
	vector<double, 3> ax{ 0, 0, 1 };
	Q a = Q::from_axis_angle(ax, 1.0), b = Q::from_axis_angle(ax, 1.02);
	Q nb{ -b.s, -b.v.x, -b.v.y, -b.v.z };
	Q r = Q::slerp(a, b, 0.5), t = Q::slerp(a, nb, 0.5);
	return std::fabs(std::fabs(Q::dot(r, t)) - 1.0) < 1e-9 ? 0 : 1;
}
''')

S('m01-max-list-seed', 'M01', {'vector.h': [('''			MUU_ASSUME(end_ != nullptr);

			vector out = *begin_;
			for (auto v = begin_ + 1u; v != end_; v++)
				out = vector::max(out, *v);
			return out;''', '''			MUU_ASSUME(end_ != nullptr);

			vector out{};
			for (auto v = begin_; v != end_; v++)
				out = vector::max(out, *v);
			return out;''')]},
  'the maximum of a range (or a list of three or more vectors) in which some component is negative in every vector',
  'the range maximum starts from the zero vector, so a component that is negative everywhere comes out as zero', r'''
#include <muu/vector.h>
using V = muu::vector<float, 3>;
int main()
{
	V v[] = { { -5, 1, 2 }, { -3, 4, -1 }, { -9, 0, 0 } };
	V m	  = V::max(v, v + 3);
	return m.x == -3 && m.y == 4 && m.z == 2 ? 0 : 1;
}
''')
S('m01-approx-lane', 'M01', {'vector.h': [('muu::approx_zero(v.member, epsilon)', 'muu::approx_zero(muu::max(v.member, scalar_type{}), epsilon)')]},
  'a vector with a component that is negative and larger in magnitude than the tolerance',
  'the tolerance test for the zero vector accepts large negative components', r'''
#include <muu/vector.h>
using V = muu::vector<double, 4>;
int main() { return V::approx_zero(V{ 0, -7, 0, 0 }, 0.001) ? 1 : 0; }
''')
S('m02-perspective-aspect', 'M02', {'matrix.h': [('''const auto e = near_clip * far_clip / (near_clip - far_clip);''', '''const auto e = near_clip * (far_clip - near_clip) / (near_clip - far_clip);''')]},
  'the right-handed DirectX-style projection and a point that is not on the far plane',
  'the depth offset of the projection no longer depends on the ratio of the clip distances, so points on the far plane do not map to depth 1', r'''
#include <muu/matrix.h>
#include <cmath>
using M = muu::matrix<double, 4, 4>;
int main()
{
	using namespace muu;
	M p	   = M::perspective_projection<math_apis::directx | math_apis::right_handed>(1.0, 1.5, 0.5, 20.0);
	auto f = p * vector<double, 4>{ 0, 0, -20, 1 };
	auto n = p * vector<double, 4>{ 0, 0, -0.5, 1 };
	return std::fabs(f.z / f.w - 1) < 1e-9 && std::fabs(n.z / n.w) < 1e-9 ? 0 : 1;
}
''')
S('m05-barycentric-order', 'M05', {'impl/geometry_common.h': [('''			vector_type out{ scalar_type{ 1 }, //
							 (d11 * d20 - d01 * d21) * denom,
							 (d00 * d21 - d01 * d20) * denom };
			out.x -= out.y + out.z;
			return out;
		}

		class''', '''			vector_type out{ scalar_type{ 1 }, //
							 (d11 * d20 - d01 * d21) * denom,
							 (d00 * d21 - d01 * d20) * denom };
			if (out.y + out.z > scalar_type{ 1 })
				return out /= (out.y + out.z);
			out.x -= out.y + out.z;
			return out;
		}

		class''')]},
  'a point that lies beyond the edge opposite to the first vertex',
  'barycentric coordinates of points beyond one edge are rescaled and no longer reproduce the point', r'''
#include <muu/triangle.h>
#include <cmath>
using T = muu::triangle<double>;
using V = muu::vector<double, 3>;
int main()
{
	T t{ V{ 0, 0, 0 }, V{ 1, 0, 0 }, V{ 0, 1, 0 } };
	auto b = t.barycentric(V{ 2, 2, 0 });
	return std::fabs(b.x + 3) < 1e-9 && std::fabs(b.y - 2) < 1e-9 && std::fabs(b.z - 2) < 1e-9 ? 0 : 1;
}
''')
S('m05-segment-clamp', 'M05', {'impl/geometry_common.h': [('''			scalar_type seg_len{};
			const auto seg_dir = vector_type::direction(seg0, seg1, seg_len);
			return seg0 + seg_dir * muu::clamp(lines::project_distance(seg0, seg_dir, point), scalar_type{}, seg_len);''',
'''			scalar_type seg_len{};
			const auto seg_dir = vector_type::direction(seg0, seg1, seg_len);
			return seg0 + seg_dir * muu::min(muu::abs(lines::project_distance(seg0, seg_dir, point)), seg_len);''')]},
  'a point whose projection falls before the start of the segment',
  'the closest point on a segment is mirrored into the segment for points behind its start', r'''
#include <muu/line_segment.h>
#include <cmath>
using L = muu::line_segment<double>;
using V = muu::vector<double, 3>;
int main()
{
	L s{ V{ 0, 0, 0 }, V{ 10, 0, 0 } };
	auto c = s.closest_point(V{ -2, 1, 0 });
	return std::fabs(c.x) < 1e-9 && std::fabs(c.y) < 1e-9 ? 0 : 1;
}
''')
S('m04-append-first-point', 'M04', {'bounding_box.h': [('''				return *this = from_min_max(vector_type::min(min_corner(*this), pt1, pt2, pts...),
											vector_type::max(max_corner(*this), pt1, pt2, pts...));''', '''				return *this = from_min_max(vector_type::min(min_corner(*this), pt1, pt2, pts...),
											vector_type::max(max_corner(*this), pt2, pts...));''')]},
  'appending several points of which the first one has the largest coordinate on some axis (appending a box or a segment in ascending order is unaffected)',
  'the box does not grow to contain the first of several appended points', r'''
#include <muu/bounding_box.h>
using B = muu::bounding_box<float>;
using V = muu::vector<float, 3>;
int main()
{
	B b{ V{ 0, 0, 0 }, V{ 1, 1, 1 } };
	b.append(V{ 5, 0, 0 }, V{ 2, 0, 0 });
	return b.contains(V{ 4.5f, 0, 0 }) ? 0 : 1;
}
''')

S('b01-countr-longlong', 'B01', {'countr.h': [('return __builtin_ctzll(val);', 'return __builtin_ctz(static_cast<unsigned int>(val));')]},
  'counting trailing zeros of an unsigned long long (not unsigned long) of which the low 32 bits are zero',
  'the intrinsic for unsigned int is used for unsigned long long', r'''
#include <muu/bit.h>
int main()
{
	volatile unsigned long long v = 1ull << 40;
	return !(muu::countr_zero((unsigned long long)v) == 40 && muu::countr_one(~(unsigned long long)v) == 40);
}
''')
S('b02-reverse-mask', 'B02', {'byte_reverse.h': [('((val >> 24) & 0x0000000000FF0000u)', '((val >> 24) & 0x0000000000FE0000u)')]},
  'constant evaluation of byte_reverse() on a 64-bit value whose sixth byte is odd',
  'the constant-evaluation branch drops one bit', r'''
#include <muu/byte_reverse.h>
int main()
{
	constexpr unsigned long a = muu::byte_reverse((unsigned long)0x0102030405060708ul);
	constexpr unsigned long b = muu::byte_reverse((unsigned long)0x0100010000000000ul);
	return !(a == 0x0807060504030201ul && b == 0x0000000000010001ul);
}
''')
S('b02-align-high-bits', 'B02', {'apply_alignment.h': [('''			using uint = decltype(T{} * size_t{});
			return static_cast<T>((val + Alignment - uint{ 1 }) & ~(Alignment - uint{ 1 }));
		}
	}


''', '''			using uint = decltype(T{} * 1u);
			return static_cast<T>((val + static_cast<uint>(Alignment) - uint{ 1 }) & ~(static_cast<unsigned>(Alignment) - 1u));
		}
	}


''')]},
  'rounding a 64-bit value of 2^32 or more up to an alignment given as a template argument',
  'the mask is computed in 32 bits and clears the high half of the value', r'''
#include <muu/apply_alignment.h>
int main()
{
	volatile unsigned long v = 0x100000001ul;
	return muu::apply_alignment<16>((unsigned long)v) != 0x100000010ul;
}
''')
S('b03-pod-tag-leftover', 'B03', {'tagged_ptr.h': [('''			if constexpr ((sizeof(Tag) * CHAR_BIT) < tag_bits)
			{
				bits &= ptr_mask;
			}''', '''			if constexpr ((sizeof(Tag) * CHAR_BIT) < tag_bits / 2u)
			{
				bits &= ptr_mask;
			}''')]},
  'storing a struct tag smaller than the tag area over an earlier, wider tag',
  'bits of the earlier tag survive next to the new one', r'''
#include <muu/tagged_ptr.h>
struct alignas(1024) obj { char c[1024]; };
struct pod { unsigned char v; };
static obj o;
int main()
{
	muu::tagged_ptr<obj> t{ &o, 0x3FFu };
	t.tag(pod{ 5 });
	return !(t.ptr() == &o && t.tag() == 5);
}
''')
S('m06-between-negative', 'M06', {'impl/core_utils.h': [('''					if (val < lhs{})
						return false;
				}''', '''					if (val < lhs{} && low > rhs{})
						return false;
				}''')]},
  'a negative value tested against unsigned bounds whose lower one is zero and whose upper one is at least 2^32 minus the magnitude of the value',
  'between(-1, 0u, UINT_MAX) is true', r'''
#include <muu/core.h>
#include <climits>
int main()
{
	volatile int v = -1;
	return muu::between(int(v), 0u, UINT_MAX) || !muu::between(3, 0u, UINT_MAX) || muu::between(int(v), 1u, UINT_MAX);
}
''')
S('m06-offset-int', 'M06', {'impl/core_utils.h': [('''				return static_cast<T*>(static_cast<char_ptr>(ptr) + offset);''', '''				return static_cast<T*>(static_cast<char_ptr>(ptr) + static_cast<int>(offset));''')]},
  'offsetting a void pointer by more than 2 GB',
  'the offset is truncated to 32 bits', r'''
#include <muu/core.h>
#include <cstdint>
int main()
{
	volatile std::uintptr_t a = 0x10000000000ull;
	void* p = reinterpret_cast<void*>(std::uintptr_t(a));
	volatile unsigned long o = 0x180000000ul;
	return reinterpret_cast<std::uintptr_t>(muu::apply_offset(p, (unsigned long)o)) != 0x10180000000ull;
}
''')
S('m09-transposed-digits', 'M09', {'impl/core_constants.h': [('T(0.742723067762178233588L)', 'T(0.742723067762187233588L)')]},
  'using the constant seven_over_three_pi in double precision',
  'two transposed digits in the constant', r'''
#include <muu/core.h>
int main()
{
	const double d = muu::constants<double>::seven_over_three_pi * 3.0 * muu::constants<double>::pi - 7.0;
	return d > 4e-15 || d < -4e-15;
}
''')

S('h01-pad-55', 'H01', {'src/hashing.cpp': [('if (current_block_length > 56u)', 'if (current_block_length >= 56u)')]},
  'a message whose length is 55 bytes more than a multiple of 64',
  'a whole block of zeros is hashed before the length', r'''
#include <muu/hashing.h>
#include <cstring>
int main()
{
	// SHA-1 of 55 times 'a'
	static const unsigned char want[20] = { 0xc1, 0xc8, 0xbb, 0xdc, 0x22, 0x79, 0x6e, 0x28, 0xc0, 0xe1, 0x51, 0x63, 0xd2, 0x08, 0x99, 0xb6, 0x56, 0x21, 0xd6, 0x5a };
	char m[55];
	std::memset(m, 'a', 55);
	muu::sha1 h;
	h(m, 55);
	h.finish();
	return std::memcmp(&h.value(), want, 20) != 0;
}
''', srcs=['src/hashing.cpp'])
S('h01-byte-count', 'H01', {'src/hashing.cpp': [('''	current_block[current_block_length++] = byte;
	if (current_block_length == 64_u8)
	{
		current_block_length = 0_u8;
		sha1_utils::process_block(current_block, state.digest.value);
		processed_blocks++;
	}''', '''	current_block[current_block_length++] = byte;
	if (current_block_length == 64_u8)
	{
		current_block_length = 0_u8;
		sha1_utils::process_block(current_block, state.digest.value);
	}''')]},
  'a message of 64 bytes or more of which some block is completed by a single-byte call',
  'the encoded message length misses that block', r'''
#include <muu/hashing.h>
#include <cstring>
int main()
{
	unsigned char m[70];
	for (int i = 0; i < 70; i++) m[i] = (unsigned char)(i);
	muu::sha1 a, c;
	a(m, 70);
	a.finish();
	for (auto b : m) c(b);
	c.finish();
	return std::memcmp(&a.value(), &c.value(), 20) != 0;
}
''', srcs=['src/hashing.cpp'])
S('h02-variant-future', 'H02', {'uuid.h': [('else if (v == 0b110) // 1 1 0', 'else if (v >= 0b110) // 1 1 0')]},
  'a uuid whose clock_seq_high byte starts with the bits 111',
  'the variant reserved_future is reported as reserved_microsoft', r'''
#include <muu/uuid.h>
int main()
{
	const muu::uuid u{ 1u, muu::uint16_t(2), muu::uint16_t(3), muu::uint8_t(0xE4), muu::uint8_t(5), 6ul };
	return u.variant() != muu::uuid_variant::reserved_future;
}
''')
S('h02-order', 'H02', {'uuid.h': [('return l < r ? -1 : 1;', 'return static_cast<int64_t>(static_cast<uint64_t>(l >> 64u) - static_cast<uint64_t>(r >> 64u)) < 0 || ((l >> 64u) == (r >> 64u) && l < r) ? -1 : 1;')]},
  'two uuids whose upper halves differ by more than 2^63',
  'the ordering is not transitive', r'''
#include <muu/uuid.h>
int main()
{
	const muu::uuid a{ 0x10000000u, muu::uint16_t(2), muu::uint16_t(3), muu::uint16_t(4), 5ul };
	const muu::uuid b{ 0xF0000000u, muu::uint16_t(2), muu::uint16_t(3), muu::uint16_t(4), 5ul };
	return !(a < b) || b < a;
}
''')
S('t01-wchar-letter', 'T01', {'impl/unicode_wchar_t.h': [('return is_non_ascii_letter(static_cast<impl::wchar_code_unit>(c));', 'return is_non_ascii_letter(static_cast<impl::wchar_code_unit>(c & 0xFFFF));')]},
  'a wide character above U+FFFF whose low 16 bits are those of a letter (or the reverse)',
  'is_letter(wchar_t) looks at the low 16 bits only', r'''
#include <muu/chars.h>
int main(int argc, char**) { return muu::is_non_ascii_letter(wchar_t(0x100400 + argc - 1)); }
''')
S('t01-code-point-signed', 'T01', {'impl/unicode_char32_t.h': [('''	constexpr bool is_code_point(char32_t c) noexcept
	{
		return c <= U'\\U0010FFFF';''', '''	constexpr bool is_code_point(char32_t c) noexcept
	{
		return static_cast<int32_t>(c) <= 0x10FFFF;''')]},
  'a UTF-32 code unit of 0x80000000 or more',
  'is_code_point() is true for code units with the top bit set', r'''
#include <muu/chars.h>
int main(int argc, char**) { return muu::is_code_point(char32_t(0xFFFFFFFEu + argc)); }
''')
S('x02-emplacement-array-alone', 'X02', {'emplacement_array.h': [('#include "impl/core_utils.h"\n', '')]},
  'a translation unit that includes emplacement_array.h before any other header of the library',
  'emplacement_array.h does not compile on its own', r'''
#include <muu/emplacement_array.h>
int main() { muu::emplacement_array<int> a{ 3 }; return static_cast<int>(a.size()); }
''', script=r'''
g++ -std=gnu++17 -w -fsyntax-only -I include "$(dirname "$0")/demo.cpp"
''')
S('x02-warnings-leak', 'X02', {'function_view.h': [('#include "impl/header_end.h"\n', '')]},
  'user code that includes function_view.h and relies on its own warning flags',
  'the warnings that the header disables for itself stay disabled in the code of the includer', r'''
#include <muu/function_view.h>
double f(float a);
double f(float a) { return a; }
int main() {}
''', script=r'''
! clang++ -std=c++17 -Werror=double-promotion -fsyntax-only -I include "$(dirname "$0")/demo.cpp"
''')

S('x03-normalize-pure', 'X03', {'vector.h': [('MUU_NODISCARD\n\t\tstatic constexpr vector MUU_VECTORCALL normalize(MUU_VPARAM(vector) v, delta_scalar_type& length_out)', 'MUU_PURE_GETTER\n\t\tstatic constexpr vector MUU_VECTORCALL normalize(MUU_VPARAM(vector) v, delta_scalar_type& length_out)')]},
  'a release build (NDEBUG) with optimisation, and a caller that normalises a vector for the sake of its length only',
  'normalize(v, length_out) promises the compiler to have no effect, so the call is dropped and length_out stays as it was', r'''
#include <muu/vector.h>
#include <cstdlib>
using namespace muu;
int main(int argc, char**)
{
	float l = -1;
	vector<float, 3> v{ 3.0f * argc, 4.0f, 0.0f };
	(void)vector<float, 3>::normalize(v, l);
	if (!(l > 4.9f && l < 5.1f)) return 1;
}
''', flags='-O2 -DNDEBUG')
S('x03-uuid-version-const', 'X03', {'uuid.h': [('MUU_PURE_GETTER\n\t\tconstexpr uuid_version version() const noexcept', 'MUU_CONST_GETTER\n\t\tconstexpr uuid_version version() const noexcept')]},
  'a release build (NDEBUG) with optimisation that asks a uuid for its version before and after changing it',
  'version() promises the compiler not to read memory, so the second answer is the first one', r'''
#include <muu/uuid.h>
#include <cstdlib>
using namespace muu;
int main(int argc, char**)
{
	uuid u;
	u.bytes.value[6] = std::byte(0x10 * argc);
	auto a = u.version();
	u.bytes.value[6] = std::byte(0x40 * argc);
	auto b = u.version();
	if (a == b) return 1;
}
''', flags='-O2 -DNDEBUG')

POOLSRC = ['src/thread_pool.cpp', 'src/thread_name.cpp', 'src/string_param.cpp']
TP = 'src/thread_pool.cpp'

S('p01-lock-multiple-leak', 'P01', {TP: [('''						if (q.available() >= required)
							return std::optional<size_t>{ queue_index };
						q.unlock();
''', '''						if (q.available() >= required)
							return std::optional<size_t>{ queue_index };
						if (q.empty())
							q.unlock();
''')]},
  'for_each on a pool in which some queue that is not empty has fewer free slots than there are batches',
  'lock_multiple leaves the mutex of a queue that has too little room locked, so nobody can use that queue again', r'''
#include <muu/thread_pool.h>
#include <atomic>
#include <chrono>
#include <thread>
#include <unistd.h>
int main()
{
	alarm(20);
	std::atomic<bool> go{ false };
	std::atomic<int> started{ 0 }, ran{ 0 };
	muu::thread_pool pool{ 2, 8 };
	for (int i = 0; i < 2; i++)
		pool.enqueue([&]() noexcept { started++; while (!go) std::this_thread::yield(); });
	while (started < 2) std::this_thread::yield();
	for (int i = 0; i < 6; i++) // three of four slots of each queue
		pool.enqueue([&]() noexcept { ran++; });
	std::thread t{ [&]() { std::this_thread::sleep_for(std::chrono::milliseconds(300)); go = true; } };
	pool.for_each(0, 4, [&](int) noexcept { ran++; });
	t.join();
	pool.wait();
	return ran == 10 ? 0 : 1;
}
''', srcs=POOLSRC, libs='-pthread')

S('p01-decrement-unlocked', 'P01', {TP: [('''			bool notify = false;
			{
				std::lock_guard lock{ mutex };
				busy -= i;
				notify = !busy;
			}
			if (notify)
				cv.notify_all();
''', '''			busy -= i;
			const bool notify = !busy;
			{
				std::lock_guard lock{ mutex };
			}
			if (notify)
				cv.notify_all();
''')]},
  'two workers finishing tasks at the same time, or one finishing while another thread enqueues',
  'the count of unfinished tasks is changed without its mutex: updates get lost', r'''
#include <muu/thread_pool.h>
#include <atomic>
#include <thread>
int main()
{
	std::atomic<int> ran{ 0 };
	muu::thread_pool pool{ 4 };
	for (int i = 0; i < 400; i++)
		pool.enqueue([&]() noexcept { ran++; });
	while (ran < 400) std::this_thread::yield();
	return 0;
}
''', script=r'''
# the thread sanitizer reports a data race on the counter
d=$(mktemp -d)
trap 'rm -r -- "$d"' EXIT
clang++ -std=c++17 -O1 -g -fsanitize=thread -w -I include "$(dirname "$0")/demo.cpp" src/thread_pool.cpp src/thread_name.cpp src/string_param.cpp -o "$d/demo" -pthread || exit 3
timeout 100 "$d/demo" > "$d/out" 2>&1
rc=$?
if grep -q "unexpected memory mapping" "$d/out"; then timeout 100 setarch -R "$d/demo" > "$d/out" 2>&1; rc=$?; fi
grep -A12 "decrement" "$d/out" | head -20
[ $rc = 124 ] && exit 1
awk '/WARNING: ThreadSanitizer: data race/{c=1;n=0} c&&/thread_pool_monitor/{f=1} /==================/{if(++n>1)c=0} END{exit f}' "$d/out"
''')

S('p02-full-queue', 'P02', {TP: [('return size() >= capacity;', 'return size() > capacity;')]},
  'enqueuing one more task while every slot of every queue is taken',
  'a queue that is exactly full is handed out: the new task overwrites one that has not been run yet', r'''
#include <muu/thread_pool.h>
#include <atomic>
#include <chrono>
#include <thread>
#include <unistd.h>
int main()
{
	alarm(20);
	std::atomic<bool> go{ false };
	std::atomic<int> started{ 0 }, ran[4] = {};
	muu::thread_pool pool{ 1, 2 };
	pool.enqueue([&]() noexcept { started++; while (!go) std::this_thread::yield(); });
	while (started < 1) std::this_thread::yield();
	std::thread t{ [&]() { std::this_thread::sleep_for(std::chrono::milliseconds(300)); go = true; } };
	for (int i = 0; i < 3; i++)
		pool.enqueue([&, i]() noexcept { ran[i]++; });
	t.join();
	std::this_thread::sleep_for(std::chrono::milliseconds(500));
	return ran[0] == 1 && ran[1] == 1 && ran[2] == 1 ? 0 : 1;
}
''', srcs=POOLSRC, libs='-pthread')

S('p02-room-multiple', 'P02', {TP: [('if (q.available() >= required)', 'if (q.available() + 1u >= required)')]},
  'for_each while the queues have exactly one slot less than there are batches',
  'lock_multiple hands out a queue with one slot too few: a batch overwrites a queued task', r'''
#include <muu/thread_pool.h>
#include <atomic>
#include <chrono>
#include <thread>
#include <unistd.h>
int main()
{
	alarm(20);
	std::atomic<bool> go{ false };
	std::atomic<int> started{ 0 }, ran[6] = {}, items{ 0 };
	muu::thread_pool pool{ 2, 8 };
	for (int i = 0; i < 2; i++)
		pool.enqueue([&]() noexcept { started++; while (!go) std::this_thread::yield(); });
	while (started < 2) std::this_thread::yield();
	for (int i = 0; i < 6; i++)
		pool.enqueue([&, i]() noexcept { ran[i]++; });
	std::thread t{ [&]() { std::this_thread::sleep_for(std::chrono::milliseconds(300)); go = true; } };
	pool.for_each(0, 2, [&](int) noexcept { items++; });
	t.join();
	std::this_thread::sleep_for(std::chrono::milliseconds(500));
	for (int i = 0; i < 6; i++)
		if (ran[i] != 1) return 1;
	return items == 2 ? 0 : 1;
}
''', srcs=POOLSRC, libs='-pthread')

S('p03-drain-one', 'P03', {TP: [('''				while (!empty())
					pop_front_task()->~task();
''', '''				if (!empty())
					pop_front_task()->~task();
''')]},
  'destroying a pool while one of its queues still holds two or more tasks',
  'only the first of the queued tasks is destroyed, whatever the others own is leaked', r'''
#include <muu/thread_pool.h>
#include <atomic>
#include <chrono>
#include <memory>
#include <optional>
#include <thread>
#include <unistd.h>
int main()
{
	alarm(20);
	std::atomic<bool> go{ false };
	std::atomic<int> started{ 0 };
	auto owned = std::make_shared<int>(1);
	std::optional<muu::thread_pool> pool;
	pool.emplace(1, 8);
	pool->enqueue([&]() noexcept { started++; while (!go) std::this_thread::yield(); });
	while (started < 1) std::this_thread::yield();
	for (int i = 0; i < 5; i++)
		pool->enqueue([owned]() noexcept { (void)*owned; });
	std::thread t{ [&]() { std::this_thread::sleep_for(std::chrono::milliseconds(300)); go = true; } };
	pool.reset();
	t.join();
	return owned.use_count() == 1 ? 0 : 1;
}
''', srcs=POOLSRC, libs='-pthread')

S('p04-notify-one', 'P04', {TP: [('''			if (notify)
				cv.notify_all();
		}
	};
''', '''			if (notify)
				cv.notify_one();
		}
	};
''')]},
  'two or more threads inside wait() at the moment the last task finishes',
  'only one of the waiting threads is woken, the others wait for ever', r'''
#include <muu/thread_pool.h>
#include <atomic>
#include <chrono>
#include <thread>
#include <unistd.h>
int main()
{
	alarm(10);
	std::atomic<bool> go{ false };
	muu::thread_pool pool{ 1 };
	pool.enqueue([&]() noexcept { while (!go) std::this_thread::yield(); });
	std::thread a{ [&]() { pool.wait(); } }, b{ [&]() { pool.wait(); } };
	std::this_thread::sleep_for(std::chrono::milliseconds(500));
	go = true;
	a.join();
	b.join();
	return 0;
}
''', srcs=POOLSRC, libs='-pthread')

TPH = 'include/muu/thread_pool.h'
S('p05-index-narrow', 'P05', {TPH: [('next_batch_start	   = static_cast<offset_type>(batch_start + next_batch_size);', 'next_batch_start	   = static_cast<offset_type>(static_cast<int32_t>(batch_start) + static_cast<int32_t>(next_batch_size));')]},
  'for_each over a 64-bit index range that crosses or lies beyond 2^31',
  'the start of every batch after the first is narrowed to 32 bits', r'''
#include <muu/thread_pool.h>
#include <atomic>
#include <cstdint>
int main()
{
	muu::thread_pool pool{ 4 };
	std::atomic<int> n{ 0 }, wrong{ 0 };
	const int64_t start = int64_t{ 1 } << 40;
	pool.for_each(start, start + 8, [&](int64_t i) noexcept { n++; if (i < start || i >= start + 8) wrong++; });
	pool.wait();
	return n == 8 && !wrong ? 0 : 1;
}
''', srcs=POOLSRC, libs='-pthread')

S('p05-batch-unlock', 'P05', {TPH: [("""							std::advance(batch_start, 1);
						}
					});

			if (shared_queue_index == no_available_queue)
				::muu_impl_thread_pool_unlock(storage_, queue_index);""", """							std::advance(batch_start, 1);
						}
					});

			if (shared_queue_index != no_available_queue)
				return;
			if (batch_index + 1u < workers())
				::muu_impl_thread_pool_unlock(storage_, queue_index);""")]},
  'for_each over elements when no single queue has room for all batches, in at least as many batches as workers',
  'the queue of the last batch is never unlocked', r"""
#include <muu/thread_pool.h>
#include <atomic>
#include <unistd.h>
int main()
{
	alarm(20);
	std::atomic<int> n{ 0 };
	int data[64] = {};
	{
		muu::thread_pool pool{ 4, 4 };
		for (int i = 0; i < 8; i++)
			pool.for_each(data, data + 64, [&](int&) noexcept { n++; });
		pool.wait();
	}
	return n == 8 * 64 ? 0 : 1;
}
""", srcs=POOLSRC, libs='-pthread')

ACH, IRH, SPH = ('include/muu/%s.h' % n for n in ('accumulator', 'integral_range', 'span'))
S('c01-start-max', 'C01', {ACH: [('''				min_ = max_ = sample;
				sum_		= static_cast<sum_type>(sample);
			}

			MUU_PRAGMA_CLANG_LT(11, optimize off)''', '''				min_ = sample;
				max_ = muu::max(sample, max_);
				sum_ = static_cast<sum_type>(sample);
			}

			MUU_PRAGMA_CLANG_LT(11, optimize off)''')]},
  'a floating-point accumulator that is given only negative samples',
  'the greatest value starts at the default 0 instead of the first sample', r'''
#include <muu/accumulator.h>
int main()
{
	muu::accumulator<double> a;
	a.add(-3.0).add(-2.0);
	return a.max() == -2.0 && a.min() == -3.0 ? 0 : 1;
}
''')

S('c01-kahan-branch', 'C01', {ACH: [('if (muu::abs(sum_) >= muu::abs(sample))', 'if (sum_ >= sample)')]},
  'a floating-point sum in which a large negative sample meets a small positive sum, or the other way round',
  'the rounding error is taken from the wrong operand when signs differ', r'''
#include <muu/accumulator.h>
int main()
{
	muu::accumulator<double> a;
	for (double x : { 1.0, -1e100, 1.0, 1e100 })
		a.add(x);
	return a.sum() == 2.0 ? 0 : 1;
}
''')

S('c02-contains-range', 'C02', {IRH: [('return other.s >= s && other.e <= e;', 'return contains(other.s) && other.e <= e;')]},
  'asking whether a range contains an empty range at its end (or an empty range contains itself)',
  'an empty sub-range at the end is reported as not contained', r'''
#include <muu/integral_range.h>
int main()
{
	const muu::integral_range<int> r{ 2, 5 };
	return r.contains(muu::integral_range<int>{ 5, 5 }) && r.contains(muu::integral_range<int>{ 3, 5 }) ? 0 : 1;
}
''')

S('c02-offset-int', 'C02', {IRH: [('val_ = static_cast<value_type>(static_cast<size_type>(val_) + offset);', 'val_ = static_cast<value_type>(val_ + static_cast<int>(offset));')]},
  'advancing an iterator of a 64-bit range by 2^31 or more',
  'the offset is narrowed to int', r'''
#include <muu/integral_range.h>
#include <cstdint>
int main()
{
	const muu::integral_range<int64_t> r{ 0, int64_t{ 1 } << 40 };
	auto it = r.begin();
	it += r.size() - 1u;
	return *it == r.last() ? 0 : 1;
}
''')

S('c03-subspan-zero', 'C03', {SPH: [('''			if (count == dynamic_extent)
			{
				return span<element_type>{ data() + offset''', '''			if (count == dynamic_extent || !count)
			{
				return span<element_type>{ data() + offset''')]},
  'span::subspan(offset, 0)',
  'an empty subspan turns into the rest of the span', r'''
#include <muu/span.h>
int main()
{
	int a[7]{};
	const muu::span<int> s{ a, 7 };
	return s.subspan(5, 0).empty() && s.subspan(5).size() == 2 ? 0 : 1;
}
''')

S('c03-bytes-of-const', 'C03', {SPH: [('MUU_CONSTRAINED_TEMPLATE(!std::is_const_v<T>, typename T, size_t E, size_t A)', 'MUU_CONSTRAINED_TEMPLATE(!std::is_volatile_v<T>, typename T, size_t E, size_t A)')]},
  'calling as_writable_bytes on a span of const elements',
  'writable bytes of const elements are handed out', r'''
#include <muu/span.h>
#include <type_traits>
template <typename T, typename = void>
constexpr bool writable = false;
template <typename T>
constexpr bool writable<T, std::void_t<decltype(as_writable_bytes(std::declval<T>()))>> = true;
int main()
{
	return writable<muu::span<int>> && !writable<muu::span<const int>> ? 0 : 1;
}
''')

SMH = 'include/muu/spin_mutex.h'
S('p06-try-restore', 'P06', {SMH: [('''			return !held_.load(std::memory_order_relaxed) //
				&& !held_.exchange(true, std::memory_order_acquire);''', '''			if (!held_.exchange(true, std::memory_order_acquire))
				return true;
			held_.store(false, std::memory_order_release);
			return false;''')]},
  'a try_lock() that fails because the mutex is held, followed by another attempt while it is still held',
  'a failed try_lock() frees the mutex of its owner', r'''
#include <muu/spin_mutex.h>
int main()
{
	muu::spin_mutex m;
	m.lock();
	const bool a = m.try_lock();
	const bool b = m.try_lock();
	return !a && !b ? 0 : 1;
}
''')

S('p06-lock-giveup', 'P06', {SMH: [('mask = mask < max ? mask << 1 : max;', '''if (mask >= max && held_.load(std::memory_order_relaxed))
						return;
					mask <<= 1;''')]},
  'a mutex that is held for longer than the back-off takes to reach its maximum',
  'lock() gives up waiting and returns without the mutex', r'''
#include <muu/spin_mutex.h>
#include <atomic>
#include <chrono>
#include <thread>
int main()
{
	muu::spin_mutex m;
	std::atomic<bool> in{ false };
	m.lock();
	std::thread t([&] { m.lock(); in = true; });
	std::this_thread::sleep_for(std::chrono::milliseconds(300));
	const bool bad = in;
	m.unlock();
	t.join();
	return bad ? 1 : 0;
}
''', libs='-pthread')
