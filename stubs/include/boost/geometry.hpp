#pragma once
// Parse-time stand-in for Boost.Geometry: same names and signatures as used by
// the analysed tree, no bodies (the analyses treat geometry as opaque).
#include <cmath>
#include <cstddef>
#include <string>
#include <algorithm>
#include <cassert>
#include <queue>
#include <optional>
#include <functional>
#include <numeric>
#include <deque>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <tuple>
#include <vector>
#include <boost/lexical_cast.hpp>
#include <boost/math/constants/constants.hpp>
#include <boost/range/iterator_range.hpp>
#include <boost/range/begin.hpp>
#include <boost/range/end.hpp>
#include <boost/version.hpp>
namespace boost { namespace geometry {
namespace cs { struct cartesian {}; }
namespace model {
namespace d2 {
template <typename T, typename C = cs::cartesian> class point_xy { T v_[2]; public: point_xy(); point_xy(T const &, T const &); T const & x() const; T const & y() const; void x(T const &); void y(T const &); template <std::size_t K> T const & get() const; template <std::size_t K> void set(T const &); };
}
template <typename T, std::size_t N, typename C> class point { public: point(); template <std::size_t K> T const & get() const; template <std::size_t K> void set(T const &); };
template <typename P> class ring : public std::vector<P> { public: using std::vector<P>::vector; };
template <typename P> class linestring : public std::vector<P> { public: using std::vector<P>::vector; };
template <typename P> class multi_point : public std::vector<P> { public: using std::vector<P>::vector; };
template <typename P> class segment { public: P first, second; segment(); segment(P const &, P const &); };
template <typename P> class box { public: box(); box(P const &, P const &); P & min_corner(); P & max_corner(); P const & min_corner() const; P const & max_corner() const; };
template <typename P, bool CW = true, bool CL = true> class polygon { public: using point_type = P; using ring_type = ring<P>; using inner_container_type = std::vector<ring_type>; ring_type & outer(); ring_type const & outer() const; inner_container_type & inners(); inner_container_type const & inners() const; void clear(); };
template <typename P> class multi_polygon : public std::vector<P> {};
template <typename P> class referring_segment { public: P & first; P & second; };
template <typename P> class pointing_segment { public: P * first; P * second; };
}
template <typename P> typename P::ring_type & exterior_ring(P &);
template <typename P> typename P::ring_type const & exterior_ring(P const &);
template <std::size_t K, typename P> double get(P const &);
template <std::size_t K, typename P> void set(P &, double);
template <typename A, typename B> bool intersects(A const &, B const &);
template <typename A> bool intersects(A const &);
template <typename A, typename B> bool disjoint(A const &, B const &);
template <typename A, typename B> bool within(A const &, B const &);
template <typename A, typename B> bool covered_by(A const &, B const &);
template <typename A, typename B> double distance(A const &, B const &);
template <typename A, typename B> double comparable_distance(A const &, B const &);
template <typename A, typename B> void convex_hull(A const &, B &);
template <typename A> double length(A const &);
template <typename A> double area(A const &);
template <typename A> void correct(A &);
template <typename A, typename B> void append(A &, B const &);
template <typename A> std::size_t num_points(A const &);
template <typename A, typename B> bool intersection(A const &, B const &, std::vector<model::d2::point_xy<double>> &);
template <typename A, typename B, typename C> bool intersection(A const &, B const &, C &);
template <typename A, typename B> void subtract_point(A &, B const &);
template <typename A, typename B> void add_point(A &, B const &);
template <typename A> void multiply_value(A &, double);
template <typename A> void divide_value(A &, double);
template <typename A, typename B> double dot_product(A const &, B const &);
template <typename R, typename A> R return_centroid(A const &);
template <typename A, typename B> void centroid(A const &, B &);
template <typename A, typename F> void for_each_segment(A const &, F);
template <typename A, typename F> void for_each_point(A const &, F);
template <typename A> std::string dsv(A const &);
template <typename A> std::string wkt(A const &);
template <typename P> struct segment_iterator { using value_type = model::pointing_segment<typename P::point_type const>; using iterator_category = std::forward_iterator_tag; using difference_type = std::ptrdiff_t; using pointer = value_type const *; using reference = value_type const &; model::pointing_segment<typename P::point_type const> const & operator*() const; model::pointing_segment<typename P::point_type const> const * operator->() const; segment_iterator & operator++(); segment_iterator operator++(int); bool operator==(segment_iterator const &) const; bool operator!=(segment_iterator const &) const; };
template <typename P> segment_iterator<P> segments_begin(P const &);
template <typename P> segment_iterator<P> segments_end(P const &);
}}
#define BOOST_GEOMETRY_REGISTER_POINT_2D(...)
#define BOOST_GEOMETRY_REGISTER_POINT_3D(...)
