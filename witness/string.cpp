#include "common.h"
#include "containers/string.h"
using Str = String;
using Ar = Array<ansichar, void>;
OFF(buffer, Ar, buffer); OFF(count, Ar, count); OFF(capacity, Ar, capacity); OFF(malloc, Ar, malloc); K(arrsz, sizeof(Ar)); K(esz, sizeof(ansichar));
OFF(string, Str, array); K(strsz, sizeof(Str)); OFF(nbuf, Name, buffer); OFF(nlen, Name, length);
using PS = PlatformStrings;
extern "C" {
void w_ctor(Str * a) { new (a) Str{}; }
void w_ctorCap(Str * a, sizet n) { new (a) Str(n); }
void w_ctorFill(Str * a, sizet n, char c) { new (a) Str(n, c); }
void w_ctorBuf(Str * a, const char * s, sizet n) { new (a) Str(s, n); }
void w_ctorC(Str * a, const char * s) { new (a) Str(s); }
void w_ctorName(Str * a, const Name & s) { new (a) Str(s); }
void w_ctorCopy(Str * a, const Str & s) { new (a) Str(s); }
void w_ctorMove(Str * a, Str & s) { new (a) Str(move(s)); }
void w_ctorSlack(Str * a, const Str & s, sizet n) { new (a) Str(s, n); }
void w_dtor(Str * a) { a->~Str(); }
Str * w_assign(Str & a, const Str & s) { return &(a = s); }
Str * w_assignMove(Str & a, Str & s) { return &(a = move(s)); }
Str * w_assignC(Str & a, const char * s) { return &(a = s); }
sizet w_getLength(const Str & a) { return a.getLength(); }
sizet w_getSize(const Str & a) { return a.getSize(); }
sizet w_getLen(const Str & a) { return a.getLen(); }
char * w_deref(Str & a) { return *a; }
char * w_getData(Str & a) { return a.getData(); }
char * w_getBuffer(Str & a) { return a.getBuffer(); }
const char * w_cderef(const Str & a) { return *a; }
const char * w_cgetData(const Str & a) { return a.getData(); }
const char * w_cgetBuffer(const Str & a) { return a.getBuffer(); }
char * w_index(Str & a, uint64 i) { return &a[i]; }
char * w_getAt(Str & a, uint64 i) { return &a.getAt(i); }
const char * w_cindex(const Str & a, uint64 i) { return &a[i]; }
const char * w_cgetAt(const Str & a, uint64 i) { return &a.getAt(i); }
Str * w_addChar(Str & a, char c) { return &(a += c); }
Str * w_addC(Str & a, const char * s) { return &(a += s); }
Str * w_addStr(Str & a, const Str & s) { return &(a += s); }
Str * w_addI32(Str & a, int32 n) { return &(a += n); }
Str * w_addI64(Str & a, int64 n) { return &(a += n); }
Str * w_addU32(Str & a, uint32 n) { return &(a += n); }
Str * w_addU64(Str & a, uint64 n) { return &(a += n); }
Str * w_addF32(Str & a, float32 n) { return &(a += n); }
Str * w_addF64(Str & a, float64 n) { return &(a += n); }
Str * w_setI32(Str & a, int32 n) { return &(a <<= n); }
Str * w_setI64(Str & a, int64 n) { return &(a <<= n); }
Str * w_setU32(Str & a, uint32 n) { return &(a <<= n); }
Str * w_setU64(Str & a, uint64 n) { return &(a <<= n); }
Str * w_setF32(Str & a, float32 n) { return &(a <<= n); }
Str * w_setF64(Str & a, float64 n) { return &(a <<= n); }
void w_plusChar(Str * r, const Str & a, char c) { new (r) Str(a + c); }
void w_plusC(Str * r, const Str & a, const char * s) { new (r) Str(a + s); }
void w_plusStr(Str * r, const Str & a, const Str & s) { new (r) Str(a + s); }
void w_plusI32(Str * r, const Str & a, int32 n) { new (r) Str(a + n); }
void w_plusU64(Str * r, const Str & a, uint64 n) { new (r) Str(a + n); }
void w_plusF64(Str * r, const Str & a, float64 n) { new (r) Str(a + n); }
void w_format(Str * r, const char * f, int32 n, const char * s) { new (r) Str(Str::format(f, n, s)); }
void w_substr(Str * r, const Str & a, sizet len, sizet pos) { new (r) Str(a.substr(len, pos)); }
void w_substr0(Str * r, const Str & a, sizet len) { new (r) Str(a.substr(len)); }
Str * w_spliceStr(Str & a, sizet pos, sizet len, const Str & s) { return &a.splice(pos, len, s); }
Str * w_spliceC(Str & a, sizet pos, sizet len, const char * s) { return &a.splice(pos, len, s); }
int64 w_findC(const Str & a, const char * s) { return a.findIndex(s); }
int64 w_findCAt(const Str & a, const char * s, sizet pos) { return a.findIndex(s, pos); }
int64 w_findCN(const Str & a, const char * s, sizet pos, sizet n) { return a.findIndex(s, pos, n); }
int64 w_findStr(const Str & a, const Str & s) { return a.findIndex(s); }
int64 w_findStrAt(const Str & a, const Str & s, sizet pos) { return a.findIndex(s, pos); }
int64 w_findChar(const Str & a, char c) { return a.findIndex(c); }
int64 w_findCharAt(const Str & a, char c, sizet pos) { return a.findIndex(c, pos); }
void w_findAllStr(const Str & a, const Str & s, Array<sizet> * out) { new (out) Array<sizet>(a.findAll(s)); }
void w_findAllC(const Str & a, const char * s, Array<sizet> * out) { new (out) Array<sizet>(a.findAll(s)); }
void w_findAllChar(const Str & a, char s, Array<sizet> * out) { new (out) Array<sizet>(a.findAll(s)); }
Str * w_replaceAll(Str & a, const Str & p, const Str & r) { return &a.replaceAll(p, r); }
void w_toLower(Str * r, const Str & a) { new (r) Str(a.toLower()); }
void w_toUpper(Str * r, const Str & a) { new (r) Str(a.toUpper()); }
int32 w_cmp(const Str & a, const Str & b) { return a.cmp(b); }
int32 w_cmpC(const Str & a, const char * b) { return a.cmp(b); }
int32 w_icmp(const Str & a, const Str & b) { return a.icmp(b); }
int32 w_icmpC(const Str & a, const char * b) { return a.icmp(b); }
bool w_eq(const Str & a, const Str & b) { return a == b; }
bool w_ne(const Str & a, const Str & b) { return a != b; }
bool w_lt(const Str & a, const Str & b) { return a < b; }
bool w_le(const Str & a, const Str & b) { return a <= b; }
bool w_gt(const Str & a, const Str & b) { return a > b; }
bool w_ge(const Str & a, const Str & b) { return a >= b; }
bool w_eqC(const Str & a, const char * b) { return a == b; }
bool w_neC(const Str & a, const char * b) { return a != b; }
bool w_ltC(const Str & a, const char * b) { return a < b; }
bool w_leC(const Str & a, const char * b) { return a <= b; }
bool w_gtC(const Str & a, const char * b) { return a > b; }
bool w_geC(const Str & a, const char * b) { return a >= b; }
sizet w_psLength(const char * s) { return PS::getLength(s); }
int32 w_psCmp(const char * a, const char * b) { return PS::cmp(a, b); }
int32 w_psIcmp(const char * a, const char * b) { return PS::icmp(a, b); }
int32 w_psCmpn(const char * a, const char * b, sizet n, sizet s) { return PS::cmpn(a, b, n, s); }
int32 w_psIcmpn(const char * a, const char * b, sizet n, sizet s) { return PS::icmpn(a, b, n, s); }
}
