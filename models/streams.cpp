// Linked for harnesses that use the standard streams.
#include <ios>
#include <new>
#include <ostream>
#include <streambuf>
#include <cstdio>
// std::cout and std::cerr: no buffer of their own; a harness that uses them gives them one
alignas(16) unsigned char m_cout[sizeof(std::ostream)] __asm__("_ZSt4cout"); alignas(16) unsigned char m_cerr[sizeof(std::ostream)] __asm__("_ZSt4cerr");
__attribute__((constructor(102))) static void initStreams() { new (m_cout) std::ostream((std::streambuf*)nullptr); new (m_cerr) std::ostream((std::streambuf*)nullptr); }
extern "C" long m_copybufs(std::streambuf* in, std::streambuf* out, bool& ineof) __asm__("_ZSt21__copy_streambufs_eofIcSt11char_traitsIcEElPSt15basic_streambufIT_T0_ES6_Rb");
extern "C" long m_copybufs(std::streambuf* in, std::streambuf* out, bool& ineof) {
  long n = 0; ineof = true;
  for (int c = in->sgetc(); c != EOF; c = in->snextc()) { if (out->sputc((char)c) == EOF) { ineof = false; break; } ++n; }
  return n;
}
