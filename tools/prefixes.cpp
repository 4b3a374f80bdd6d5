#include <sstream>
#include <iomanip>
#include <boost/regex.hpp>
#include <boost/tokenizer.hpp>
#define private public
#include "/repo/libhext/src/Parser.cpp"
#undef private
#include "hext/ParseHext.h"
#include <deque>
#include <map>
#include <iostream>
using namespace hext; using namespace hext::ragel;
static int step(int cs, char ch){
  const char*k=_hext_trans_keys+_hext_key_offsets[cs]; int tr=_hext_index_offsets[cs];
  int n=_hext_single_lengths[cs];
  if(n>0){ for(int i=0;i<n;i++) if(k[i]==ch) { tr+=i; goto m;} k+=n; tr+=n; }
  n=_hext_range_lengths[cs];
  if(n>0){ for(int i=0;i<n;i++) if(ch>=k[2*i]&&ch<=k[2*i+1]){tr+=i; goto m;} tr+=n; }
m: return _hext_trans_targs[_hext_indicies[tr]];
}
static int state(const std::string&s){int cs=hext_start; for(char c:s) cs=step(cs,c); return cs;}
static bool live(const std::string&s){ try{ParseHext(s.data(),s.size());return true;}catch(const SyntaxError&e){std::string m=e.what(); return m.find("at end of input")!=std::string::npos||m.find("Unclosed nested")==0;}catch(...){return false;}}
int main(){
  std::map<int,std::string> best; 
  for(std::string seed:{"","<a>","<a>{","<a>{<b/>"}){
    std::map<int,std::string> seen; std::deque<std::string> q; q.push_back(seed); seen[state(seed)]=seed;
    while(!q.empty()){ auto s=q.front(); q.pop_front(); int cs=state(s);
      // bytes in a friendly order
      std::string order="ab1 >/=:\"'?+*{}<#\n-_.,@~^$!()|\\\t"; for(int c=0;c<256;++c) if(order.find((char)c)==std::string::npos) order+=(char)c;
      for(char c:order){int t=step(cs,c); if(!t||seen.count(t)) continue; auto n=s+c; if(!live(n)) continue; seen[t]=n; q.push_back(n);} }
    for(auto&x:seen) if(!best.count(x.first)) best[x.first]=x.second;
    std::cerr<<seed<<" "<<seen.size()<<"\n";
  }
  std::cerr<<"states "<<best.size()<<"\n"; size_t mx=0;
  std::map<std::string,int> out; for(auto&x:best){out[x.second]=x.first; mx=std::max(mx,x.second.size());}
  std::cerr<<mx<<"\n";
  for(auto&x:out){ std::cout<<'"'; for(unsigned char c:x.first){ if(c=='"'||c=='\\') std::cout<<'\\'<<c; else if(c=='\n') std::cout<<"\\n"; else if(c<32||c>126){char b[8];snprintf(b,8,"\\%03o",c);std::cout<<b;} else std::cout<<c;} std::cout<<"\",\n"; }
}
