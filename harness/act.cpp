// C05: activations and their derivatives
#include "h.hh"
#include <nntile/tensor.hh>
#include <nntile/tile.hh>
static const double PI=3.14159265358979323846;
static double Phi(double x){ return 0.5*std::erfc(-x/std::sqrt(2.)); }                       // normal distribution
static double dgelu_(double x){ return Phi(x)+x*std::exp(-0.5*x*x)/std::sqrt(2*PI); }
static double tanhArg(double x){ return std::sqrt(2/PI)*(x+0.044715*x*x*x); }
static double gelut(double x){ return x/(1+std::exp(-2*tanhArg(x))); }                        // x*(1+tanh(a))/2
static double dgelut(double x){ double s=1/(1+std::exp(-2*tanhArg(x))); double da=std::sqrt(2/PI)*(1+3*0.044715*x*x); return s+x*2*da*s*(1-s); }
template<class F> static VD map1(const VD&x,F f){ VD r; for(auto v:x) r.push_back(f(v)); return r; }
#define INPLACE(name,f) SCENARIO(name){ Cfg c=pickNd(0,2); TH<T,L> a(c,NOMUT); auto&x=a.sym("x"); OP(name,a()); a.expect(map1(x,f),#name ": value"); }
#define FORWARD(name,f) SCENARIO(name){ Cfg c=pickNd(0,2); TH<T,L> a(c),b(c); auto&x=a.sym("x"); if(nsym_pick("dstinit",2)) b.sym("y"); OP(name,a(),b()); b.expect(map1(x,f),#name ": value"); a.same(#name ": src unchanged"); }
#define BACKWARD(name,f) SCENARIO(name){ Cfg c=pickNd(0,MODE==SEQ?2:1); TH<T,L> a(c),g(c),d(c); auto&x=a.sym("x"),&y=g.sym("dy"),&z=d.sym("dx"); OP(name,a(),g(),d()); VD e; for(size_t i=0;i<x.size();i++) e.push_back(z[i]+f(x[i])*y[i]); d.expect(e,#name ": dx += f'(x)*dy"); a.same(#name ": x unchanged"); g.same(#name ": dy unchanged"); }
static double relu_(double x){ return x>0?x:0; } static double drelu_(double x){ return x>0?1:0; }
static double gelu_(double x){ return x*Phi(x); }
INPLACE(relu,relu_)
INPLACE(drelu,drelu_)
INPLACE(gelu,gelu_)
INPLACE(dgelu,dgelu_)
INPLACE(dgelutanh,dgelut)
INPLACE(gelutanh_inplace,gelut)
FORWARD(gelutanh,gelut)
FORWARD(relu_forward,relu_)
BACKWARD(relu_backward,drelu_)
BACKWARD(gelu_backward,dgelu_)
BACKWARD(gelutanh_backward,dgelut)
