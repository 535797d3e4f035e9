// Case text and outcome hash, shared by the vmpi machine and the real runner.
#include "vm.hpp"
namespace vm {
std::string Case::str() const
{
  std::ostringstream o;
  o<<"np="<<np<<" ex="<<(explore==FULL_DFS?"full":explore==PREEMPT_BOUND?"pb"+std::to_string(bound):std::string("def"))
   <<" sm="<<send_mode<<" pm="<<put_mode;
  for (auto &p:kv) o<<" "<<p.first<<"="<<p.second;
  return o.str();
}
Case Case::parse(const std::string &s)
{
  Case c; std::istringstream i(s); std::string t;
  while (i>>t) {
    size_t e=t.find('='); if (e==std::string::npos) continue;
    std::string k=t.substr(0,e), v=t.substr(e+1);
    if (k=="np") c.np=atoi(v.c_str());
    else if (k=="ex") {
      if (v=="full") c.explore=FULL_DFS;
      else if (v.compare(0,2,"pb")==0) { c.explore=PREEMPT_BOUND; c.bound=atoi(v.c_str()+2); }
    }
    else if (k=="sm") c.send_mode=atoi(v.c_str());
    else if (k=="pm") c.put_mode=atoi(v.c_str());
    else c.kv[k]=v;
  }
  c.id=c.str();
  return c;
}
std::string outcome_hash(const std::vector<std::vector<std::string> > &recs)
{
  uint64_t h=1469598103934665603ull;
  auto add=[&](const std::string &s){ for (unsigned char ch:s) { h^=ch; h*=1099511628211ull; } h^=0x100; h*=1099511628211ull; };
  for (auto &r:recs) { add("rank"); for (auto &s:r) add(s); }
  char b[32]; snprintf(b,32,"%016lx",(unsigned long)h); return b;
}
}
