// Stand-in for pybind11: every registration of the extension module is handed, with its C++ type, to the harness
// (on_function / on_method / on_field / on_init of struct Hook, defined by the harness before this file is included).
#pragma once
#include <string>
#include <vector>
#include <functional>
#include <stdexcept>
#include <type_traits>
#include <utility>
#include <cstdint>
#include <cstddef>
extern "C" int PyErr_CheckSignals(void);
namespace pybind11 {
typedef ptrdiff_t ssize_t;
struct error_already_set: std::exception {};
struct value_error: std::runtime_error { using std::runtime_error::runtime_error; };
struct type_error: std::runtime_error { using std::runtime_error::runtime_error; };
struct index_error: std::runtime_error { using std::runtime_error::runtime_error; };
struct multiple_inheritance {};
struct gil_scoped_release { gil_scoped_release(){} }; struct gil_scoped_acquire { gil_scoped_acquire(){} };
template<class...> struct call_guard { };
struct keep_alive_tag{}; template<int,int> struct keep_alive {};
struct none {}; struct kw_only {}; struct pos_only {}; struct dynamic_attr {}; struct doc { doc(const char*){} };
struct arg { const char*name; constexpr explicit arg(const char*n):name(n){} template<class T> arg operator=(T&&) const { return *this; } arg noconvert(bool=true) const { return *this; } };
namespace literals { inline arg operator""_a(const char*n,size_t){ return arg(n); } }
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };
struct object { const void*p=nullptr; }; typedef object handle;
template<class T> object cast(T*p){ object o; o.p=p; return o; }
template<class T> object cast(const T&v){ object o; o.p=new T(v); return o; }
template<class T> object cast(const T&v,return_value_policy){ return cast(v); }
// signatures
template<class F> struct sig: sig<decltype(&std::decay_t<F>::operator())> {};
template<class R,class...A> struct sig<R(*)(A...)> { typedef R ret; typedef R type(A...); typedef void cls; };
template<class R,class...A> struct sig<R(*)(A...) noexcept> { typedef R ret; typedef R type(A...); typedef void cls; };
template<class C,class R,class...A> struct sig<R(C::*)(A...)> { typedef R ret; typedef R type(A...); typedef C cls; };
template<class C,class R,class...A> struct sig<R(C::*)(A...) const> { typedef R ret; typedef R type(A...); typedef C cls; };
template<class C,class R,class...A> struct sig<R(C::*)(A...) noexcept> { typedef R ret; typedef R type(A...); typedef C cls; };
template<class C,class R,class...A> struct sig<R(C::*)(A...) const noexcept> { typedef R ret; typedef R type(A...); typedef C cls; };
template<class F> using sig_t=typename sig<std::decay_t<F>>::type;
template<class...A> struct overload_cast_impl {
    template<class R> constexpr R(*operator()(R(*f)(A...)) const)(A...) { return f; }
    template<class R,class C> constexpr auto operator()(R(C::*f)(A...),std::false_type={}) const { return f; }
    template<class R,class C> constexpr auto operator()(R(C::*f)(A...) const,std::true_type) const { return f; } };
template<class...A> constexpr overload_cast_impl<A...> overload_cast{};
constexpr std::true_type const_{};
template<class...A> struct init_t {}; template<class...A> init_t<A...> init(){ return {}; }
template<class F> struct init_f { F f; }; template<class F> init_f<F> init(F f){ return {f}; }
struct attr_proxy { std::string mod,name; template<class T> attr_proxy&operator=(const T&v){ Hook::on_attr(mod,name,v); return *this; } };
struct module_ { std::string name;
    template<class F,class...X> module_&def(const char*n,F&&f,const X&...){ Hook::on_function(name,std::string(n),std::function<sig_t<F>>(std::forward<F>(f))); return *this; }
    module_ def_submodule(const char*n,const char* =nullptr){ module_ m; m.name=name+"."+n; return m; }
    attr_proxy attr(const char*n){ attr_proxy a; a.mod=name; a.name=n; return a; } };
typedef module_ module;
template<class C,class F,class S> struct as_method;
// members of C or of a base of C, and functions whose first argument is a C
template<class C,class F,class R,class...A> struct as_method<C,F,R(A...)> {
    static auto make(F f){ if constexpr(std::is_member_function_pointer<F>::value) return std::function<R(C&,A...)>([f](C&c,A...a)->R{ return (c.*f)(std::forward<A>(a)...); }); else return std::function<R(A...)>(f); } };
template<class C,class...B> struct class_: object { std::string mod,name;
    template<class...X> class_(module_&m,const char*n,const X&...){ mod=m.name; name=n; Hook::template on_class<C>(mod,name); }
    template<class F,class...X> class_&def(const char*n,F&&f,const X&...){ typedef std::decay_t<F> D; Hook::template on_method<C>(name,std::string(n),as_method<C,D,sig_t<D>>::make(f)); return *this; }
    template<class...A,class...X> class_&def(init_t<A...>,const X&...){ Hook::template on_init<C,A...>(name); return *this; }
    template<class F,class...X> class_&def(init_f<F>,const X&...){ return *this; }
    template<class F,class...X> class_&def_static(const char*n,F&&f,const X&...){ Hook::on_function(name,std::string(n),std::function<sig_t<F>>(f)); return *this; }
    template<class M,class D,class...X> class_&def_readonly(const char*n,M D::*p,const X&...){ Hook::template on_field<C>(name,std::string(n),std::function<M(const C&)>([p](const C&c){ return c.*p; })); return *this; }
    template<class M,class D,class...X> class_&def_readwrite(const char*n,M D::*p,const X&...x){ return def_readonly(n,p,x...); }
    template<class F,class...X> class_&def_property_readonly(const char*n,F f,const X&...){ auto g=as_method<C,std::decay_t<F>,sig_t<F>>::make(f); Hook::template on_field<C>(name,std::string(n),g); return *this; } };
}
#define PYBIND11_MODULE(NAME,VAR,...) void pymodule_init(pybind11::module_&VAR)
