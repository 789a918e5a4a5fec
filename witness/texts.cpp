#include "common.h"
#include "containers/string.h"
#include "containers/array.h"
#include "containers/list.h"
#include "containers/tree.h"
extern "C" void k_val(uint64 tag, int64 v);
using Str = String;
using PS = PlatformStrings;
static inline void see(const Str & s)
{
	k_val(1, s.getLength());
	for (sizet i = 0; i <= s.getLength(); ++i) k_val(2, (*s)[i]);
}
static inline int64 sign(int32 x) { return x < 0 ? -1 : x > 0; }
static inline void all(const Array<sizet> & a) { for (auto i : a) k_val(6, i); k_val(7, a.getCount()); }
struct Rank { int32 operator()(char a, char b) const { return a - b; } };
extern "C" void s_text(uint64 op, const char * a, sizet na, const char * b, sizet nb, const char * c, sizet nc, sizet x, sizet y)
{
	Str s(a, na); const Str t(b, nb);
	const Str & k = s;
	switch (op)
	{
	case 0: { see(s); see(t); Str u(b); see(u); Str v(s); see(v); Str w; see(w); Str f(na, *c); see(f); Str g(y); see(g); Str h(move(v)); see(h); w = s; see(w); w = b; see(w); w = t; see(w); break; }
	case 1: k_val(3, s == t); k_val(3, s != t); k_val(3, s < t); k_val(3, s <= t); k_val(3, s > t); k_val(3, s >= t); k_val(4, s.cmp(t)); break;
	case 2: k_val(3, s == b); k_val(3, s != b); k_val(3, s < b); k_val(3, s <= b); k_val(3, s > b); k_val(3, s >= b); k_val(4, s.cmp(b)); break;
	case 3: k_val(4, sign(s.icmp(t))); break;
	case 4: k_val(4, sign(s.icmp(b))); break;
	case 5: k_val(4, PS::cmpn(a, b, x, y)); break;
	case 6: k_val(4, sign(PS::icmpn(a, b, x, y))); break;
	case 7: k_val(5, PS::getLength(*s)); k_val(5, PS::getLength(b)); k_val(4, PS::cmp(*s, b)); break;
	case 8: k_val(4, sign(PS::icmp(*s, b))); break;
	case 9: k_val(5, s.findIndex(t, x)); k_val(5, k.findIndex(t, x)); break;
	case 10: k_val(5, s.findIndex(b, x)); break;
	case 11: k_val(5, s.findIndex(c, x, y)); break;
	case 12: k_val(5, s.findIndex(*c, x)); all(s.findAll(*c)); break;
	case 13: all(s.findAll(t)); break;
	case 14: all(s.findAll(b)); break;
	case 15: { const Str u(c, nc); Str & r = s.replaceAll(t, u); k_val(8, &r == &s); see(s); see(u); break; }
	case 16: see(k.toLower()); break;
	case 17: see(k.toUpper()); break;
	case 18: { Str & r = s.splice(x, y, t); k_val(8, &r == &s); see(s); break; }
	case 19: { Str & r = s.splice(x, y, b); k_val(8, &r == &s); see(s); break; }
	case 20: s.splice(x, y, s); see(s); break;
	case 21: see(k.substr(y, x)); if (!x) see(k.substr(y)); see(s); break;
	case 22: { Str & r = (s += t); k_val(8, &r == &s); see(s); s += b; see(s); s += *c; see(s); s += s; see(s); break; }
	case 23: see(k + t); see(k + b); see(k + *c); see(k + k); break;
	case 24: { Array<char> l; while (nc--) l.add(*c++); const Array<char> & m = l; see(m.toString()); break; }
	case 25: { List<char> l; while (nc--) l.pushBack(*c++); const List<char> & m = l; see(m.toString()); break; }
	case 26: { Array<Str> l; l.add(s); l.add(t); see(l.toString()); break; }
	}
	see(s); see(t);
}
