// numpy arrays: logical contents plus the memory order the caller happened to use.  An array_t argument sees Fortran
// order only if it asks for it (pybind11 then converts or refuses).
#pragma once
#include "pybind11.h"
namespace pybind11 {
struct array { enum { c_style=1, f_style=2, forcecast=16 };
    std::vector<ssize_t> shp; bool fortran=true; // order of the caller's memory
    void *mem=nullptr;
    ssize_t ndim() const { return (ssize_t)shp.size(); } const ssize_t*shape() const { return shp.data(); } ssize_t shape(ssize_t i) const { if(i<0||i>=ndim()) throw index_error("invalid axis"); return shp[i]; }
    ssize_t size() const { ssize_t n=1; for(auto x:shp) n*=x; return n; } };
template<class T,int FLAGS=array::forcecast> struct array_t: array {
    T*at(const array&a,bool&own) const { return nullptr; }
    const T*data() const { return (const T*)mem; } T*mutable_data() { return (T*)mem; }
    ssize_t itemsize() const { return sizeof(T); } ssize_t nbytes() const { return sizeof(T)*size(); } };
}
