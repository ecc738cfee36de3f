// Ownership of HDF5 identifiers by the wrapper classes.
#include <cstddef>
#include <string>
#include <utility>
#include <vector>
#include "core_hdf5.hpp"
namespace witness {
template<class T> void end(T& a) { a.~T(); }
#define OWNER(n, T) \
T n##_move(T& a) { return T(std::move(a)); } \
void n##_close(T& a) { a.close(); } \
void n##_close2(T& a) { a.close(); a.close(); } \
void n##_end(T& a) { end(a); } \
void n##_close_end(T& a) { a.close(); end(a); } \
void n##_move_end(T& a) { T b(std::move(a)); end(b); end(a); }
#define MOVED(n, T) void n##_assign(T& a, T& b) { a = std::move(b); } \
void n##_assign_end(T& a, T& b) { a = std::move(b); end(b); end(a); }
#define COPIED(n, T) T n##_copy(const T& a) { return T(a); } \
void n##_copy_end(T& a) { T b(a); end(b); end(a); }
#define COPYASSIGNED(n, T) void n##_set(T& a, const T& b) { a = b; } \
void n##_self(T& a) { a = a; }
OWNER(type, h5::Datatype) COPIED(type, h5::Datatype) COPYASSIGNED(type, h5::Datatype)
OWNER(space, h5::Dataspace) COPIED(space, h5::Dataspace) COPYASSIGNED(space, h5::Dataspace)
OWNER(plist, h5::PropertyList) COPIED(plist, h5::PropertyList)
OWNER(dset, h5::Dataset) MOVED(dset, h5::Dataset)
OWNER(group, h5::Group) MOVED(group, h5::Group)
OWNER(file, h5::File) MOVED(file, h5::File)
}
namespace witness {
inline h5::File some() { auto f = h5::File("a.h5", "w"); f.require_group("g"); f.write("x", 1.0); return f; }
h5::Group made_group() { return some().open_group("g"); }
h5::Group made_group2() { return some().require_group("g"); }
h5::Group made_group3() { return some().require_group("h"); }
h5::Dataset made_dset() { return some().open_dataset("x"); }
h5::Dataset made_dset2() { return some().require_dataset<double>("y", h5::Dataspace::scalar()); }
h5::Datatype made_type() { return some().open_dataset("x").get_type(); }
h5::Datatype made_type2() { return h5::Datatype::native_double().as_array(3); }
h5::Datatype made_type3() { return h5::Datatype::c_s1().with_size(3); }
h5::Dataspace made_space() { return some().open_dataset("x").get_space(); }
h5::Dataspace made_space2(std::size_t n) { return h5::Dataspace{n}; }
h5::PropertyList made_plist() { return some().open_dataset("x").get_creation_plist(); }
h5::File made_file() { return some(); }
}
