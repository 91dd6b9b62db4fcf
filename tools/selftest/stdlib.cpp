#include <deal.II/base/tensor.h>
#include <deal.II/base/point.h>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <list>
#include <deque>
#include <array>
#include <tuple>
#include <functional>
#include <memory>
#include <string>
#include <sstream>
#include <algorithm>
#include <numeric>
#include <optional>
#include <limits>
#include <cmath>
#include <queue>
#include <stack>
#include <bitset>
#include <boost/shared_ptr.hpp>
#include <boost/make_shared.hpp>
extern "C" {
double t_map(double x){ std::map<int,double> m; for(int i=9;i>=0;--i) m[i*7%10]=i*x; m.erase(3); m.insert({3,1.0}); double s=0; int k=1; for(auto&p:m){s+=p.second*k++;} auto it=m.find(5); if(it!=m.end()) s+=it->second; return s;}
double t_set(double x){ std::set<int> m; for(int i=9;i>=0;--i) m.insert(i*7%5); double s=0; int k=1; for(int p:m){s+=p*x*k++;} return s+m.count(3);}
double t_umap(double x){ std::unordered_map<int,double> m; for(int i=0;i<20;++i) m[i%13]+=x; double s=0; for(auto&p:m) s+=p.first*p.second; return s+m.size();}
double t_uset(double x){ std::unordered_set<size_t> m; for(int i=0;i<20;++i) m.insert(i%13); return x*m.size()+m.count(5);}
double t_vbool(double x){ std::vector<bool> v(70,false); v[3]=true; v[69]=true; v.push_back(true); double s=0; for(size_t i=0;i<v.size();++i) if(v[i]) s+=i*x; return s;}
double t_vec(double x){ std::vector<double> v; for(int i=0;i<5;++i) v.push_back(x*i); v.insert(v.begin()+2, 7.0); v.erase(v.begin()); v.resize(8,1.0); v.emplace_back(x); return std::accumulate(v.begin(),v.end(),0.0)+v.back();}
double t_sort(double x){ std::vector<int> v={5,3,9,1,7,7,2}; std::sort(v.begin(),v.end()); v.erase(std::unique(v.begin(),v.end()),v.end()); double s=0; for(size_t i=0;i<v.size();++i) s+=v[i]*i*x; std::stable_sort(v.begin(),v.end(),std::greater<int>()); s+=v[0]; return s;}
double t_sortbig(double x){ std::vector<std::pair<int,int>> v; for(int i=0;i<40;++i) v.push_back({i*17%41,i}); std::sort(v.begin(),v.end()); double s=0; for(size_t i=0;i<v.size();++i) s+=v[i].second*i*x; return s+ (std::lower_bound(v.begin(),v.end(),std::make_pair(5,0))-v.begin());}
double t_func(double x){ std::function<double(double)> f=[x](double y){return x*y+1;}; std::function<double(double)> g=f; return g(3)+f(2);}
double t_tuple(double x){ auto t=std::make_tuple(x,2,3.0); auto [a,b,c]=t; std::array<double,3> ar{{x,2*x,3}}; ar.fill(x); return a*b+c+ar[2]+std::get<1>(t);}
struct B{virtual double f(double)=0; virtual ~B(){}}; struct D:B{double k; D(double z):k(z){} double f(double y)override{return k*y;}};
double t_uniq(double x){ std::unique_ptr<B> p=std::make_unique<D>(x); std::unique_ptr<B> q=std::move(p); return q->f(2)+(p?1:0);}
double t_shared(double x){ std::shared_ptr<B> p=std::make_shared<D>(x); auto q=p; std::weak_ptr<B> w=q; return q->f(2)+p.use_count();}
double t_bshared(double x){ boost::shared_ptr<B> p=boost::make_shared<D>(x); auto q=p; D*d=dynamic_cast<D*>(q.get()); auto r=boost::dynamic_pointer_cast<D>(p); return q->f(2)+d->k+r->k;}
double t_list(double x){ std::list<double> l; for(int i=0;i<5;++i) l.push_front(i*x); l.pop_back(); std::deque<double> d; for(int i=0;i<100;++i) d.push_back(i*x); d.pop_front(); double s=0; for(double y:l)s+=y; for(double y:d)s+=y; std::queue<int> q; q.push(3); q.push(4); q.pop(); std::stack<int> st; st.push(5); std::priority_queue<int> pq; pq.push(1);pq.push(8);pq.push(2); return s+q.front()+st.top()+pq.top();}
double t_str(double x){ std::string s="abc"; s+="def"; std::string u=s.substr(1,3); if(u=="bcd") x+=1; if(s.find("de")==3) x+=2; if(u.compare("bcd")==0) x+=4; s=std::to_string(12)+s; if(s=="12abcdef") x+=8; if(s[0]=='1') x+=16; if(s.size()==8&&!s.empty()) x+=32; s.clear(); if(s.empty()) x+=64; if(u<std::string("zzz")) x+=128; return x;}

double t_math(double x){ double s=std::min(2.0,3.0)+std::max(2,3)+std::fabs(-2.0)+std::abs(-3)+std::pow(2.0,3)+std::floor(2.5)+std::ceil(2.5)+std::round(2.5)+std::hypot(3.0,4.0)+std::copysign(1.0,-2.0)+std::fmod(7.0,4.0)+std::cbrt(27.0)+std::trunc(2.7)+std::log(1.0)+std::exp(0.0)+std::atan2(0.0,1.0)+std::clamp(5,0,3)+std::lround(2.2)+std::isnan(1.0)+std::isfinite(1.0)+std::fma(2.0,3.0,1.0)+std::fmax(1.0,2.0)+std::fmin(1.0,2.0)+std::tanh(0.0)+std::remainder(7.0,4.0)+std::signbit(-1.0)+std::numeric_limits<double>::epsilon()*0; return s*x;}
double t_opt(double x){ std::optional<double> o; if(!o) o=x; std::bitset<10> b; b.set(3); b.flip(4); return *o+o.value_or(2)+b.count()+b.test(3);}
double t_alg(double x){ std::vector<int> v(10); std::iota(v.begin(),v.end(),1); std::vector<double> w(10); std::transform(v.begin(),v.end(),w.begin(),[x](int i){return i*x;}); std::reverse(w.begin(),w.end()); std::rotate(v.begin(),v.begin()+3,v.end()); double s=std::inner_product(v.begin(),v.end(),w.begin(),0.0); s+=std::any_of(v.begin(),v.end(),[](int i){return i>9;}); s+=std::count_if(v.begin(),v.end(),[](int i){return i%2;}); s+=*std::max_element(v.begin(),v.end()); std::fill(w.begin(),w.end(),x); std::copy(w.begin(),w.begin()+3,w.begin()+4); s+=w[5]; s+=std::find(v.begin(),v.end(),5)-v.begin(); v.erase(std::remove_if(v.begin(),v.end(),[](int i){return i<4;}),v.end()); std::partial_sum(v.begin(),v.end(),v.begin()); s+=v.back(); std::swap(v[0],v[1]); s+=v[0]; std::nth_element(v.begin(),v.begin()+2,v.end()); return s;}
double t_tens(double x){ dealii::Tensor<1,3> t; t[0]=x;t[1]=2;t[2]=3; dealii::Tensor<1,3> u=t*2.0; u-=t; dealii::Point<3> p(1,2,3); p+=u; dealii::Tensor<2,3> m; m[0][1]=x; auto r=m*t; return t*u+p.square()+p.distance(dealii::Point<3>())*0+r[0]+t.norm_square();}
double t_multi(double x){ std::multimap<int,double> m; m.insert({1,x}); m.insert({1,2*x}); m.insert({0,5}); auto r=m.equal_range(1); double s=0; for(auto it=r.first;it!=r.second;++it) s+=it->second; std::map<std::string,double> sm; sm["b"]=x; sm["a"]=3; sm.emplace("c",4); s+=sm.begin()->second+sm.at("b"); std::map<std::pair<int,int>,std::vector<int>> pm; pm[{1,2}].push_back(3); pm[{0,5}].push_back(4); s+=pm.begin()->second[0]; return s;}

static double sarr[4]; 
double t_static(double x){ static const std::vector<double> w={1,2,3}; static const double tab[3]={1,2,3}; static int cnt=0; ++cnt; double*p=new double[5]; for(int i=0;i<5;++i)p[i]=x; std::fill_n(p,2,1.0); double s=p[0]+p[4]; delete[] p; for(double y:w)s+=y; sarr[1]=x; double a2[3][2]={{1,2},{3,4},{5,x}}; double b2[3][2]; std::memcpy(b2,a2,sizeof(a2)); return s+tab[2]+sarr[1]+b2[2][1];}
}
