#ifndef HUTIL_HPP
#define HUTIL_HPP
#include "vm.hpp"
#include <algorithm>
#include <vector>
#include <map>
#include <set>
#include <sstream>
namespace hu {
// mixed radix counter: next() returns false after the last combination
struct Odo {
  std::vector<int> base, d;
  explicit Odo(const std::vector<int> &b) : base(b), d(b.size(),0) {}
  bool next() { for (size_t i=0;i<d.size();i++) { if (++d[i]<base[i]) return true; d[i]=0; } return false; }
  std::string str() const { std::ostringstream o; for (size_t i=0;i<d.size();i++) o<<(i?",":"")<<d[i]; return o.str(); }
  long size() const { long n=1; for (int b:base) n*=b; return n; }
};
template<class T> std::string show(const std::vector<T> &v) { std::ostringstream o; o<<"["; for (size_t i=0;i<v.size();i++) o<<(i?" ":"")<<v[i]; o<<"]"; return o.str(); }
template<class A,class B> std::ostream &operator<<(std::ostream &o,const std::pair<A,B> &p) { return o<<"("<<p.first<<","<<p.second<<")"; }
template<class A,class B> std::string showp(const std::vector<std::pair<A,B> > &v) { std::ostringstream o; o<<"["; for (size_t i=0;i<v.size();i++) o<<(i?" ":"")<<v[i]; o<<"]"; return o.str(); }
inline std::vector<int> ints(const std::string &s,char sep=',') { std::vector<int> v; std::istringstream i(s); std::string t; while (std::getline(i,t,sep)) if (!t.empty()) v.push_back(atoi(t.c_str())); return v; }
}
#endif
