// Type level facts: each WANT is one obligation, decided by the compiler's type checker.
#include "core_types.h"
#include "templates/types.h"
#include "templates/utility.h"
#include "templates/enable_if.h"
#include "templates/function.h"
#include "templates/atomic.h"
#include "hal/platform_memory.h"
#include <type_traits>
#define WANT(name, ...) static_assert((__VA_ARGS__), "WANT " name);
#define SAME(name, ...) static_assert(std::is_same_v<__VA_ARGS__>, "WANT " name);
struct Plain { int a; char b; };
struct Ctor { int a; Ctor(); };
struct Copy { int a; Copy(const Copy &); };
struct Asg { int a; Asg & operator=(const Asg &); };
struct Dtor { int a; ~Dtor(); };
struct Virt { virtual ~Virt(); };
struct MoveOnly { int a; MoveOnly(MoveOnly &&); MoveOnly & operator=(MoveOnly &&); ~MoveOnly(); };
struct MoveAsg { int a; MoveAsg(const MoveAsg &) = default; MoveAsg & operator=(const MoveAsg &) = default; MoveAsg & operator=(MoveAsg &&); };
struct MoveCtor { int a; MoveCtor(const MoveCtor &) = default; MoveCtor(MoveCtor &&); MoveCtor & operator=(const MoveCtor &) = default; };
struct NoCopy { int a; NoCopy(const NoCopy &) = delete; NoCopy & operator=(const NoCopy &) = delete; ~NoCopy(); };
// bytes may be copied although objects are destroyed one by one
template<typename T> constexpr bool OnlyDtor = !std::is_trivially_destructible_v<T> && std::is_copy_constructible_v<T> && std::is_trivially_assignable_v<T &, const T &> && std::is_trivially_assignable_v<T &, T &&>;
struct Base0 { }; struct Derived0 : Base0 { }; struct Derived1 : private Derived0 { };
union Un { int a; float b; };
enum En { EA }; enum class Ec : unsigned char { A };
using Fn0 = void(); using Fn2 = int(char, long *);
using Mp = int Plain::*; using Mf = void (Plain::*)();
#define QUAL(T) \
	WANT("IsPointer<" #T ">", (bool)IsPointer<T>::value == std::is_pointer_v<T>) \
	WANT("IsReference<" #T ">", (bool)IsReference<T>::value == std::is_reference_v<T>) \
	WANT("IsVolatile<" #T ">", (bool)IsVolatile<T>::value == std::is_volatile_v<T>) \
	WANT("IsArray<" #T ">", (bool)IsArray<T>::value == std::is_array_v<T>) \
	WANT("IsVoid<" #T ">", (bool)IsVoid<T>::value == std::is_same_v<T, void>) \
	SAME("RemoveReference<" #T ">", typename RemoveReference<T>::Type, std::remove_reference_t<T>) \
	SAME("RemovePointer<" #T ">", typename RemovePointer<T>::Type, std::remove_pointer_t<T>) \
	SAME("RemoveConst<" #T ">", typename RemoveConst<T>::Type, std::remove_const_t<T>) \
	SAME("RemoveVolatile<" #T ">", typename RemoveVolatile<T>::Type, std::remove_volatile_t<T>) \
	SAME("RemoveConstVolatile<" #T ">", typename RemoveConstVolatile<T>::Type, std::remove_cv_t<T>) \
	SAME("RemoveArray<" #T ">", typename RemoveArray<T>::Type, std::remove_extent_t<T>) \
	SAME("AddPointer<" #T ">", typename AddPointer<T>::Type, std::add_pointer_t<T>) \
	SAME("NakedType<" #T ">", typename NakedType<T>::Type, std::remove_const_t<std::remove_reference_t<T>>) \
	SAME("DecayType<" #T ">", typename DecayType<T>::Type, std::decay_t<T>) \
	SAME("TypeIdentity<" #T ">", typename TypeIdentity<T>::Type, T) \
	WANT("IsSameType<" #T ">", IsSameType<T, T>::value && !IsSameType<T, Plain ****>::value && !IsSameType<Plain ****, T>::value)
#define KIND(T) \
	WANT("IsIntegral<" #T ">", (bool)IsIntegral<T>::value == std::is_integral_v<T>) \
	WANT("IsCFunction<" #T ">", (bool)IsCFunction<T>::value == std::is_function_v<T>)
#define OBJ(T) \
	WANT("IsTrivial<" #T ">", (bool)IsTrivial<T>::value == std::is_trivial_v<T>) \
	WANT("IsPOD<" #T ">", (bool)IsPOD<T>::value == std::is_pod_v<T>) \
	WANT("IsTriviallyConstructible<" #T ">", (bool)IsTriviallyConstructible<T>::value == std::is_trivially_default_constructible_v<T> || !std::is_destructible_v<T> || !std::is_trivially_destructible_v<T>) \
	WANT("IsTriviallyDestructible<" #T ">", (bool)IsTriviallyDestructible<T>::value == std::is_trivially_destructible_v<T>) \
	WANT("IsTriviallyCopyable<" #T ">", IsTriviallyCopyable<T>::value ? std::is_trivially_copyable_v<T> || OnlyDtor<T> : !std::is_trivially_copyable_v<T> || !std::is_trivially_copy_constructible_v<T>) \
	WANT("IsTriviallyAssignable<" #T ">", (bool)IsTriviallyAssignable<T>::value == std::is_trivially_copy_assignable_v<T>)
#define CV(T) QUAL(T) QUAL(const T) QUAL(volatile T) QUAL(const volatile T)
#define REF(T) QUAL(T &) QUAL(T &&) QUAL(const T &) QUAL(const T &&) QUAL(volatile T &) QUAL(T * &) QUAL(T * const &&)
#define PTR(T) QUAL(T *) QUAL(const T *) QUAL(T * const) QUAL(T * volatile) QUAL(const T * const volatile) QUAL(T **) QUAL(T * const *)
#define ARR(T) QUAL(T[]) QUAL(T[3]) QUAL(const T[3]) QUAL(T[2][3]) QUAL(T (&)[3]) QUAL(const T (&)[]) QUAL(T *[3]) QUAL(T (*)[3])
#define ALLQ(T) CV(T) REF(T) PTR(T) ARR(T)
ALLQ(int32) ALLQ(ansichar) ALLQ(float32) ALLQ(Plain) ALLQ(Dtor) ALLQ(En) ALLQ(Mp)
CV(bool) CV(Ec) CV(Un) CV(void) QUAL(void *) QUAL(const void * const) QUAL(Fn0) QUAL(Fn2) QUAL(Fn0 *) QUAL(Fn2 &) QUAL(Fn2 &&) QUAL(Fn2 * const) QUAL(Mf) QUAL(decltype(nullptr))
KIND(int8) KIND(int16) KIND(int32) KIND(int64) KIND(uint8) KIND(uint16) KIND(uint32) KIND(uint64) KIND(bool) KIND(ansichar) KIND(widechar) KIND(float32) KIND(float64) KIND(float128)
KIND(int32 *) KIND(int32 &) KIND(Plain) KIND(En) KIND(Ec) KIND(Un) KIND(void) KIND(Fn0) KIND(Fn2) KIND(Fn0 *) KIND(Fn2 &) KIND(int32[2]) KIND(Mp) KIND(Mf) KIND(sizet) KIND(intp) KIND(ubyte) KIND(byte) KIND(char16) KIND(char32)
OBJ(int32) OBJ(ansichar) OBJ(float64) OBJ(int32 *) OBJ(Plain) OBJ(Ctor) OBJ(Copy) OBJ(Asg) OBJ(Dtor) OBJ(MoveOnly) OBJ(MoveAsg) OBJ(MoveCtor) OBJ(NoCopy) OBJ(Virt) OBJ(Derived0) OBJ(Un) OBJ(En) OBJ(Ec) OBJ(Mp) OBJ(Mf)
#define PAIRB(A, B) WANT("IsBaseOf<" #A "," #B ">", (bool)IsBaseOf<A, B>::value == std::is_base_of_v<A, B>)
PAIRB(Base0, Derived0) PAIRB(Derived0, Base0) PAIRB(Base0, Base0) PAIRB(Base0, Derived1) PAIRB(Plain, Base0) PAIRB(int32, int32) PAIRB(Base0, const Derived0)
#define PTROF(P, T, yes) WANT("IsPointerOf<" #P "," #T ">", (bool)IsPointerOf<P, T>::value == yes)
PTROF(int32 *, int32, true) PTROF(const int32 *, int32, true) PTROF(volatile int32 *, int32, true) PTROF(const volatile int32 *, int32, true) PTROF(int32 **, int32, false)
PTROF(int32 **, int32 *, true) PTROF(int32, int32, false) PTROF(uint32 *, int32, false) PTROF(void *, int32, false) PTROF(int32 *, void, false) PTROF(Derived0 *, Base0, false)
#define VP(T, yes) WANT("IsVoidPointer<" #T ">", (bool)IsVoidPointer<T>::value == yes)
VP(void *, true) VP(const void *, true) VP(volatile void *, true) VP(int32 *, false) VP(void **, false) VP(void, false) VP(int32, false)
#define RAP(T, B) SAME("RemoveAllPointers<" #T ">", typename RemoveAllPointers<T>::Type, B)
RAP(int32, int32) RAP(int32 *, int32) RAP(int32 ***, int32) RAP(const int32 **, const int32) RAP(int32 * const *, int32) RAP(int32 * volatile * const, int32) RAP(int32 &, int32 &) RAP(Plain *[2], Plain *[2]) RAP(void **, void)
SAME("ChooseType<true>", ChooseType<true, int32, float32>::Type, int32)
SAME("ChooseType<false>", ChooseType<false, int32, float32>::Type, float32)
SAME("EnableIf<true>", EnableIf<true, int32>::Type, int32)
SAME("EnableIf<true,void>", EnableIf<true>::Type, void)
SAME("EnableIfT", EnableIfT<true, Plain>, Plain)
template<bool b, typename = void> struct Enabled { static constexpr bool value = false; };
template<bool b> struct Enabled<b, std::void_t<typename EnableIf<b, int32>::Type>> { static constexpr bool value = true; };
WANT("EnableIf<false>", Enabled<true>::value && !Enabled<false>::value)
WANT("IsSameType<int,const int>", !IsSameType<int32, const int32>::value && !IsSameType<int32, int32 &>::value && !IsSameType<int32, uint32>::value && !IsSameType<int32 *, const int32 *>::value)
WANT("NonCopyable", !std::is_copy_constructible_v<NonCopyable> && !std::is_copy_assignable_v<NonCopyable>)
WANT("NonMovable", !std::is_move_constructible_v<NonMovable> && !std::is_move_assignable_v<NonMovable>)
struct NC : NonCopyable { }; struct NM : NonMovable { };
WANT("derived NonCopyable", !std::is_copy_constructible_v<NC> && !std::is_copy_assignable_v<NC>)
WANT("derived NonMovable", !std::is_move_constructible_v<NM> && !std::is_move_assignable_v<NM>)
template<typename T> T && any();
template<typename T> T & lv();
SAME("move(lvalue)", decltype(::move(lv<Plain>())), Plain &&)
SAME("move(const lvalue)", decltype(::move(lv<const Plain>())), const Plain &&)
SAME("move(rvalue)", decltype(::move(any<Plain>())), Plain &&)
SAME("move(pointer)", decltype(::move(lv<int32 *>())), int32 * &&)
SAME("forward<T>(lvalue)", decltype(::forward<Plain>(lv<Plain>())), Plain &&)
SAME("forward<T&>(lvalue)", decltype(::forward<Plain &>(lv<Plain>())), Plain &)
SAME("forward<const T&>(lvalue)", decltype(::forward<const Plain &>(lv<const Plain>())), const Plain &)
SAME("forward<T&&>(lvalue)", decltype(::forward<Plain &&>(lv<Plain>())), Plain &&)
SAME("forward<T>(rvalue)", decltype(::forward<Plain>(any<Plain>())), Plain &&)
SAME("forward<const T>(rvalue)", decltype(::forward<const Plain>(any<const Plain>())), const Plain &&)
WANT("IsFunction", IsFunction<Function<void()>>::value && IsFunction<const Function<int32(int32 &, char)>>::value && !IsFunction<Fn0>::value && !IsFunction<Plain>::value && !IsFunction<Fn0 *>::value)
// widths and signedness of the platform types
#define INT(T, n, s) WANT(#T, sizeof(T) == n && std::is_integral_v<T> && std::is_signed_v<T> == s)
INT(int8, 1, true) INT(int16, 2, true) INT(int32, 4, true) INT(int64, 8, true) INT(uint8, 1, false) INT(uint16, 2, false) INT(uint32, 4, false) INT(uint64, 8, false)
INT(ubyte, 1, false) INT(byte, 1, true) INT(intp, sizeof(void *), true) INT(uintp, sizeof(void *), false) INT(sizet, sizeof(void *), false) INT(char8, 1, false) INT(char16, 2, false) INT(char32, 4, false)
WANT("float32", sizeof(float32) == 4 && std::is_floating_point_v<float32>) WANT("float64", sizeof(float64) == 8 && std::is_floating_point_v<float64>) WANT("float128", sizeof(float128) >= 8 && std::is_floating_point_v<float128>)
SAME("ansichar", ansichar, char) SAME("widechar", widechar, wchar_t)
#define ATOM(T) \
	WANT("Atomic<" #T "> is not copied", !std::is_copy_constructible_v<Atomic<T>> && !std::is_move_constructible_v<Atomic<T>>) \
	WANT("Atomic<" #T "> is not copy assigned", !std::is_assignable_v<Atomic<T> &, const Atomic<T> &> && !std::is_assignable_v<Atomic<T> &, Atomic<T> &&>) \
	WANT("Atomic<" #T "> holds one T", sizeof(Atomic<T>) == sizeof(T) && alignof(Atomic<T>) == alignof(T)) \
	SAME("++Atomic<" #T ">", decltype(++lv<Atomic<T>>()), T) SAME("Atomic<" #T ">++", decltype(lv<Atomic<T>>()++), T) \
	SAME("Atomic<" #T ">.load", decltype(lv<const Atomic<T>>().load()), T) SAME("Atomic<" #T ">=", decltype(lv<Atomic<T>>() = any<T>()), T)
ATOM(int8) ATOM(int32) ATOM(uint32) ATOM(uint64) ATOM(int64) ATOM(ubyte) ATOM(Plain *) ATOM(const int32 *)
