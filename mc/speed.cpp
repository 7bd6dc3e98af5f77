#include "impl.hpp"
#include <chrono>
#include <iostream>
int main(){ impl::init();
 std::string gr="DELIMITERS = \"<.>\" ;\nLIST N = n ;\nLIST V = v (a b);\nSET NV = N OR V - (x);\nSECTION\nSELECT NV IF (1* (a) BARRIER (v)) ;\nREMOVE (n) IF (-1 (v));\n";
 std::string in="\"<a>\"\n\t\"a\" n\n\t\"a\" v\n\"<b>\"\n\t\"b\" a b\n\t\"b\" v\n\"<.>\"\n\t\".\" p\n";
 auto t=std::chrono::steady_clock::now(); int N=2000; std::string o;
 for(int i=0;i<N;i++){ o=impl::once(gr,in);} 
 double d=std::chrono::duration<double>(std::chrono::steady_clock::now()-t).count();
 std::cout<<o<<d/N*1e6<<" us once\n";
 auto g=impl::load(gr); t=std::chrono::steady_clock::now();
 for(int i=0;i<N;i++){ o=impl::run(*g,in);} 
 d=std::chrono::duration<double>(std::chrono::steady_clock::now()-t).count();
 std::cout<<d/N*1e6<<" us run\n";
}
