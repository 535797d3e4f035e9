// Text functions all input files go through: every string up to a length over the
// characters that matter, against direct definitions.
// USES: parallel timer environment configuration
// FLAGS: -D_GLIBCXX_ASSERTIONS
#include <mpi.h>
#include <cstring>
#include "vm.hpp"
#include "util.hpp"
#include "gridpack/utilities/string_utils.hpp"
using namespace vm; using namespace hu;
typedef std::string S; typedef std::vector<S> L;
static S esc(const S &s) { S r="["; for (char c:s) r+=c=='\t'?S("\\t"):c=='\r'?S("\\r"):c=='\n'?S("\\n"):S(1,c); return r+"]"; }
static S esc(const L &l) { S r; for (auto &x:l) r+=esc(x); return r+"("+std::to_string(l.size())+")"; }
struct SU : Harness {
  void enumerate(const std::string &tier,std::function<void(const Case&)> emit) override { bool th=tier=="thorough";
    auto add=[&](const char *f,const char *al,int len) { int n=strlen(al); for (int i=0;i<n;i++) { Case c; c.np=1; c.set("f",f).set("first",i).set("len",len); c.set("vmonly",i>0); emit(c); } };
    add("blank"," t'\"abr",th?8:7); add("char",", a'b;",th?9:7); add("quotes"," 'a\"brt",th?8:6); add("two"," '1\"Br",th?9:7); add("trim"," tnrab'",th?8:6); add("case"," aZ'.9_z",th?7:5); add("bool"," T1",3); }
  static const char *alpha(const S &f) { return f=="blank"?" t'\"abr":f=="char"?", a'b;":f=="quotes"?" 'a\"brt":f=="two"?" '1\"Br":f=="trim"?" tnrab'":f=="case"?" aZ'.9_z":" T1"; }
  static bool ws(char c) { return c==' '||c=='\t'||c=='\n'||c=='\r'; }
  static S strip(const S &s) { size_t a=0,b=s.size(); while (a<b&&ws(s[a])) a++; while (b>a&&ws(s[b-1])) b--; S r=s.substr(a,b-a); for (auto &c:r) if (ws(c)) c=' '; return r; }
  gridpack::utility::StringUtils u; long n;
  // tokens: runs of characters between blanks; one starting with a quote goes on until that quote comes again
  static L split(S s) { for (auto &c:s) if (c=='\t') c=' '; L r; size_t i=0; while (true) { while (i<s.size()&&s[i]==' ') i++; if (i==s.size()) break; size_t j; if (s[i]=='\''||s[i]=='"') { j=s.find(s[i],i+1); j=j==S::npos?s.size():j+1; } else { j=i; while (j<s.size()&&s[j]!=' ') j++; } S t=s.substr(i,j-i); bool cr=true; for (char c:t) if (c!='\r') cr=false; if (!cr) r.push_back(t); i=j; } return r; }
  void check(const S &f,const S &s) { S in=s; n++; try {
    if (f=="blank") { L g=u.blankTokenizer(in),w=split(s); VM_CHECK(g==w,"blankTokenizer("<<esc(s)<<") gives "<<esc(g)<<", expected "<<esc(w)); VM_CHECK(in==s,"blankTokenizer changes its argument"); }
    if (f=="char") { for (const char *sep:{",",";"}) { L g=u.charTokenizer(in,sep),w; S t; for (char c:s) { if (c!=*sep) t+=c; else if (t.size()) { w.push_back(t); t=""; } } if (t.size()) w.push_back(t); VM_CHECK(g==w,"charTokenizer("<<esc(s)<<",\""<<sep<<"\") gives "<<esc(g)<<", expected "<<esc(w)); VM_CHECK(in==s,"charTokenizer changes its argument"); } }
    if (f=="quotes") { S g=u.trimQuotes(in),t=strip(s); VM_CHECK(in==s,"trimQuotes changes its argument"); if (t.empty()||(t[0]!='\''&&t[0]!='"')) { VM_CHECK(t.find('\'')!=S::npos||t.find('"')!=S::npos||g==t,"trimQuotes("<<esc(s)<<") gives "<<esc(g)<<", expected "<<esc(t)); } else { size_t e=t.find(t[0],1); if (e==t.size()-1) { S w=strip(t.substr(1,e-1)); VM_CHECK(g==w,"trimQuotes("<<esc(s)<<") gives "<<esc(g)<<", expected "<<esc(w)); } } }
    if (f=="two") { S t; for (char c:s) t+=c=='\r'?' ':c; t=strip(t); S g=u.clean2Char(in); VM_CHECK(in==s,"clean2Char changes its argument"); if (t.size()>1&&(t[0]=='\''||t[0]=='"')&&t.find(t[0],1)==t.size()-1) { t=strip(t.substr(1,t.size()-2)); } if (t.find('\'')==S::npos&&t.find('"')==S::npos&&t.find(' ')==S::npos) { while (t.size()<2) t+=' '; VM_CHECK(g==t,"clean2Char("<<esc(s)<<") gives "<<esc(g)<<", expected "<<esc(t)); S a=g; VM_CHECK(u.clean2Char(a)==g,"clean2Char of its own result "<<esc(g)<<" is different"); } }
    if (f=="trim") { u.trim(in); VM_CHECK(in==strip(s),"trim("<<esc(s)<<") gives "<<esc(in)); S b=in; u.trim(b); VM_CHECK(b==in,"trim twice"); }
    if (f=="case") { S a=s,b=s; u.toUpper(a); u.toLower(b); S wa,wb; for (char c:s) { wa+=c>='a'&&c<='z'?c-32:c; wb+=c>='A'&&c<='Z'?c+32:c; } VM_CHECK(a==wa&&b==wb,"toUpper and toLower of "<<esc(s)<<" are "<<esc(a)<<esc(b)); }
  } catch (const std::exception &e) { fail(f+" of "+esc(s)+" throws "+e.what()); } }
  void rank_main(const Case &c,int,int) override { par_begin(); n=0; S f=c.gets("f"),al=alpha(f); for (auto &x:al) if (f=="blank"||f=="quotes"||f=="two"||f=="trim") { if (x=='t') x='\t'; if (x=='r') x='\r'; if (x=='n') x='\n'; } int first=c.geti("first"),len=c.geti("len");
    if (f=="bool") { struct { const char *w; bool v; } W[]={{"true",1},{"yes",1},{"t",1},{"y",1},{"1",1},{"false",0},{"no",0},{"f",0},{"n",0},{"0",0}}; for (auto &w:W) { int l=strlen(w.w); for (int m=0;m<(1<<l);m++) for (int p=0;p<16;p++) { S s; if (p&1) s+=first==0?"  ":"\t"; for (int i=0;i<l;i++) s+=m>>i&1?(char)toupper(w.w[i]):w.w[i]; if (p&2) s+=" "; if (p&4) s+="\n"; if (p&8) s="\r"+s; n++; VM_CHECK(u.getBool(s)==w.v&&u.getBool(s.c_str())==w.v,"getBool("<<esc(s)<<") is "<<u.getBool(s)); } } }
    else { if (first==0) check(f,""); for (int l=1;l<=len;l++) { std::vector<int> d(l,0); d[0]=first; while (true) { S s; for (int i=0;i<l;i++) s+=al[d[i]]; check(f,s); int i=l-1; while (i>0&&++d[i]==(int)al.size()) d[i--]=0; if (i==0) break; } } }
    count_sub(n); record("ok"); par_end(); }
};
Harness *vm::make_harness() { return new SU; }
