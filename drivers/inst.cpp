// explicit instantiations: every non-template member of the class templates of the library
#include <muu/all.h>
#include <string>
#include <memory>
struct incomplete_ok { int a; double b; };
struct alignas(32) over { char c[32]; };
enum class en : unsigned { a, b };
#ifdef T_ACC
#define ACC(T) template class muu::accumulator<T>;
ACC(int) ACC(unsigned) ACC(float) ACC(double) ACC(long double) ACC(long long) ACC(muu::half) ACC(short)
#endif
#ifdef T_SPAN
template class muu::span<int>; template class muu::span<const int>; template class muu::span<int, 4>; template class muu::span<std::byte>; template class muu::span<std::byte, muu::dynamic_extent, 16>; template class muu::span<over, 2, 32>; template class muu::span<std::string>;
#endif
#ifdef T_EA
template class muu::emplacement_array<int>; template class muu::emplacement_array<std::string>; template class muu::emplacement_array<std::unique_ptr<int>>; template class muu::emplacement_array<over>;
#endif
#ifdef T_SA
template struct muu::static_array<int, 1, 2, 3>; template struct muu::static_array<char, 'a'>; template struct muu::static_array<unsigned, 1u>;
#endif
#ifdef T_CP
template class muu::compressed_pair<int, double>; template class muu::compressed_pair<std::string, std::true_type>; template class muu::compressed_pair<std::true_type, std::false_type>; template class muu::compressed_pair<std::true_type, int>;
#endif
#ifdef T_IR
template struct muu::integral_range<int>; template struct muu::integral_range<unsigned>; template struct muu::integral_range<long long>; template struct muu::integral_range<signed char>; template struct muu::integral_range<int*>; template struct muu::impl::integral_range_iterator<int>; template struct muu::impl::integral_range_iterator<int*>; template struct muu::impl::integral_range_iterator<unsigned>;
#endif
#ifdef T_FS
template class muu::fixed_string<char, 5>; template class muu::fixed_string<char, 0>; template class muu::fixed_string<wchar_t, 5>; template class muu::fixed_string<char16_t, 5>; template class muu::fixed_string<char32_t, 5>;
#endif
#ifdef T_TP
template class muu::tagged_ptr<int, 16>; template class muu::tagged_ptr<void, 8>; template class muu::tagged_ptr<int(int), 4>; template class muu::tagged_ptr<const over, 32>;
#endif
#ifdef T_FV
template class muu::function_view<int(int)>; template class muu::function_view<void()>; template class muu::function_view<void() noexcept>; template class muu::function_view<std::string(std::string, const int&)>;
#endif
#ifdef T_HASH
template class muu::fnv1a<32>; template class muu::fnv1a<64>; template class muu::hash_combiner<32>; template class muu::hash_combiner<64>;
#endif
#ifdef T_PUV
template struct muu::packed_unit_vector<unsigned, 2>; template struct muu::packed_unit_vector<unsigned char, 3>; template struct muu::packed_unit_vector<unsigned short, 3>; template struct muu::packed_unit_vector<unsigned, 3>; template struct muu::packed_unit_vector<unsigned long, 3>;
#endif
#ifdef T_SAT
template struct muu::sat_tester<float, 2>; template struct muu::sat_tester<float, 3>; template struct muu::sat_tester<double, 3>;
#endif
#define ALLDIM_V(T) template struct muu::vector<T,1>; template struct muu::vector<T,2>; template struct muu::vector<T,3>; template struct muu::vector<T,4>; template struct muu::vector<T,5>;
#define MAT(T) template struct muu::matrix<T,1,1>; template struct muu::matrix<T,2,2>; template struct muu::matrix<T,2,3>; template struct muu::matrix<T,3,2>; template struct muu::matrix<T,3,3>; template struct muu::matrix<T,3,4>; template struct muu::matrix<T,4,4>; template struct muu::matrix<T,5,5>;
#define GEO(T) template struct muu::quaternion<T>; template struct muu::axis_angle<T>; template struct muu::euler_angles<T>; template struct muu::bounding_box<T>; template struct muu::oriented_bounding_box<T>; template struct muu::bounding_sphere<T>; template struct muu::plane<T>; template struct muu::ray<T>; template struct muu::triangle<T>; template struct muu::line_segment<T>;
#ifdef EL
ALLDIM_V(EL)
#ifndef NOMAT
MAT(EL)
#endif
#endif
#ifdef GL
GEO(GL)
#endif
