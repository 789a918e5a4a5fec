#include "common.h"
#include "regex/regex.h"
using namespace Re;
using St = StateBase<ansichar>;
extern "C" void k_val(uint64 tag, uint64 v);
/// any of 0 .. n - 1
extern "C" uint64 k_choose(uint64 n);
/// the state is reachable; kind: 1 the start, 2 accepted
extern "C" void k_state(const St * s, uint64 kind);
extern "C" void k_edge(const St * from, const St * to);
/// next reachable state whose edges were not reported yet, or null
extern "C" const St * k_todo();
/// number of reachable states, and each of them
extern "C" uint64 k_count();
extern "C" const St * k_pick(uint64 i);
/// a text: the number of symbols before it, its address
extern "C" int32 k_before(uint64 v);
extern "C" const ansichar * k_text(uint64 v);
extern "C" void k_probe(uint64 i, uint64 v, bool entered, int32 numRead);
/// as if n more states had been made before
extern "C" void k_skip(uint64 n);
#define SCN(name) extern "C" void s_##name

static inline void walk(const Automaton<ansichar> & a)
{
	k_state(a.getStartState(), a.isAcceptedState(a.getStartState()) ? 3 : 1);
	k_val(1, a.isStartState(a.getStartState()));
	while (const St * s = k_todo())
		for (const St * n : s->getNextStates()) { k_state(n, a.isAcceptedState(n) ? 2 : 0); k_edge(s, n); }
}
static inline void probe(uint64 variants)
{
	uint64 n = k_count();
	uint64 c = k_choose(n * variants);
	uint64 i = c % n, v = c / n;
	const St * s = k_pick(i);
	int32 numRead = 77;
	bool e = s->enterState(k_text(v), numRead, k_before(v));
	k_probe(i, v, e, numRead);
}

/// the automaton of a pattern, and what each of its states does with an unknown text
SCN(pattern)(const ansichar * pattern)
{
	Regex r{String{pattern}};
	walk(r.getAutomaton());
	probe(3);
}
/// the pattern on a whole text
SCN(accept)(const ansichar * pattern, const ansichar * text)
{
	Regex r{String{pattern}};
	k_val(2, r.accept(text));
}
/// simplified once more
SCN(again)(const ansichar * pattern)
{
	Regex r{String{pattern}};
	r.getAutomaton().createOptimizer().removeEpsilons();
	walk(r.getAutomaton());
	probe(3);
}
/// not well formed: any automaton will do
SCN(odd)(const ansichar * pattern, const ansichar * text)
{
	Regex r{String{pattern}};
	walk(r.getAutomaton());
	r.accept(text);
	k_val(2, 0);
}
SCN(free)(const ansichar * pattern, const ansichar * text) { k_val(2, Re::accept(String{pattern}, String{text})); }
SCN(string)(const ansichar * pattern, const ansichar * text) { Regex r{String{pattern}}; k_val(2, r.accept(String{text})); }
/// by single steps
SCN(steps)(const ansichar * pattern, const ansichar * text)
{
	Regex r{String{pattern}};
	auto e = r.getAutomaton().createExecutor(text);
	bool ok;
	while (!e.step(ok)) k_val(3, e.getCurrentInput() == text + e.getNumRead());
	k_val(2, ok);
	if (ok) { k_val(4, e.isAcceptedState()); k_val(5, r.getAutomaton().isAcceptedState(e.getCurrentState())); }
}
/// a second run of the same executor, on another text
SCN(reset)(const ansichar * pattern, const ansichar * other, const ansichar * text)
{
	Regex r{String{pattern}};
	auto e = r.getAutomaton().createExecutor(other);
	bool ok;
	uint64 n = k_choose(4);
	if (n == 3) while (!e.step(ok));
	else for (uint64 i = 0; i < n; ++i) if (e.step(ok)) break;
	e.reset(text);
	k_val(6, e.getNumRead());
	k_val(7, r.getAutomaton().isStartState(e.getCurrentState()));
	while (!e.step(ok));
	k_val(2, ok);
}
SCN(reset0)(const ansichar * pattern, const ansichar * text)
{
	Regex r{String{pattern}};
	auto e = r.getAutomaton().createExecutor(text);
	bool ok;
	uint64 n = k_choose(4);
	if (n == 3) while (!e.step(ok));
	else for (uint64 i = 0; i < n; ++i) if (e.step(ok)) break;
	e.reset();
	while (!e.step(ok));
	k_val(2, ok);
}

/// builders
using A = Automaton<ansichar>;
using Eps = StateEpsilon<ansichar>;
using Sym = StateSymbol<ansichar>;
using Any = StateAny<ansichar>;
using Rng = StateRange<ansichar>;
using Lam = StateLambda<ansichar>;
using Pos = StatePositiveLookahed<ansichar>;
using Neg = StateNegativeLookahed<ansichar>;
#define BUILD(name, ...) SCN(build_##name)(ansichar a, ansichar b, ansichar c) {\
	A m; { auto x = m.createBuilder(); __VA_ARGS__; x.endGroup(); } walk(m); probe(3); }\
	SCN(simple_##name)(ansichar a, ansichar b, ansichar c) {\
	A m; { auto x = m.createBuilder(); __VA_ARGS__; x.endGroup(); } m.createOptimizer().removeEpsilons(); walk(m); probe(3); }
BUILD(empty, (void)0)
BUILD(seq, x.pushState<Sym>(a).pushState<Sym>(b))
BUILD(any, x.pushState<Any>())
BUILD(branch, x.pushState<Sym>(a); x.pushBranch(); x.pushState<Sym>(b))
BUILD(branch_empty, x.pushState<Sym>(a); x.pushBranch())
BUILD(group, x.beginGroup(); x.pushState<Sym>(a); x.pushBranch(); x.pushState<Sym>(b); x.endGroup(); x.pushJump())
BUILD(jump, x.pushState<Sym>(a); x.pushJump(); x.pushState<Sym>(b); x.pushJump())
BUILD(skip, x.pushState<Sym>(a); x.pushSkip(); x.pushState<Sym>(b); x.pushSkip())
BUILD(star, x.pushState<Sym>(a); x.pushJump(); x.pushSkip(); x.pushState<Sym>(b))
BUILD(skipjump, x.pushState<Sym>(a); x.pushSkip(); x.pushJump(); x.pushState<Sym>(b))
BUILD(rep22, x.pushState<Sym>(a); x.pushRepeat(2, 2); x.pushState<Sym>(b))
BUILD(rep13, x.pushState<Sym>(a); x.pushRepeat(1, 3); x.pushState<Sym>(b))
BUILD(rep20, x.pushState<Sym>(a); x.pushRepeat(2, 0); x.pushState<Sym>(b))
BUILD(rep10, x.pushState<Sym>(a); x.pushRepeat(1, 0); x.pushState<Sym>(b))
BUILD(rep00, x.pushState<Sym>(a); x.pushRepeat(0, 0); x.pushState<Sym>(b))
BUILD(rep02, x.pushState<Sym>(a); x.pushRepeat(0, 2); x.pushState<Sym>(b))
BUILD(repgrp, x.beginGroup(); x.pushState<Sym>(a); x.pushState<Sym>(b); x.pushSkip(); x.endGroup(); x.pushRepeat(2, 3); x.pushState<Sym>(c))
BUILD(repjump, x.beginGroup(); x.pushState<Sym>(a); x.pushRepeat(2, 2); x.pushState<Sym>(b); x.endGroup(); x.pushJump())
BUILD(nested, x.beginGroup(); x.beginGroup(); x.pushState<Sym>(a); x.pushBranch(); x.pushState<Sym>(b); x.endGroup(); x.pushRepeat(2, 2); x.endGroup(); x.pushRepeat(1, 2); x.pushState<Sym>(c))
BUILD(ahead, x.beginMacro<Pos>(); x.pushState<Sym>(a); x.pushBranch(); x.pushState<Sym>(b); x.endMacro(); x.pushState<Any>())
BUILD(notahead, x.beginMacro<Neg>(); x.pushState<Sym>(a); x.endMacro(); x.pushState<Any>(); x.pushState<Sym>(b))
BUILD(aheadrep, x.beginGroup(); x.beginMacro<Neg>(); x.pushState<Sym>(a); x.endMacro(); x.pushState<Any>(); x.endGroup(); x.pushRepeat(2, 2))
BUILD(aheadempty, x.pushState<Sym>(a); x.beginMacro<Pos>(); x.endMacro(); x.pushState<Sym>(b))
BUILD(aheadpos, x.pushState<Sym>(a).pushSkip(); x.beginMacro<Pos>(); x.pushState<Lam>([](const ansichar *, int32 & out, int32 n) -> bool { return (out = 0, n == 0); }); x.endMacro(); x.pushState<Sym>(b))
BUILD(notpos, x.pushState<Sym>(a).pushJump(); x.beginMacro<Neg>(); x.pushState<Lam>([](const ansichar *, int32 & out, int32 n) -> bool { return (out = 0, n != 0); }); x.endMacro(); x.pushState<Sym>(b))
BUILD(wide, x.beginGroup(); x.pushState<Sym>(a); x.pushBranch(); x.pushState<Sym>(b); x.pushBranch(); x.pushState<Sym>(c); x.pushBranch(); x.pushState<Any>(); x.pushState<Sym>(a); x.endGroup(); x.beginGroup(); x.pushState<Sym>(a); x.pushBranch(); x.pushState<Sym>(b); x.endGroup())
BUILD(notempty, x.pushState<Sym>(a); x.pushSkip(); x.beginMacro<Neg>(); x.endMacro(); x.pushState<Sym>(b))

/// single states, then their clones
#define STATE(name, params, make) SCN(state_##name) params {\
	A m; const St * s = make;\
	k_state(s, 0);\
	St * t = s->cloneState(m);\
	k_state(t, 0);\
	const St & sr = *s; const St & tr = *t;\
	k_val(1, typename St::FindState{}(sr, tr) != 0);\
	k_val(2, t->getNextStates().getCount() + t->getPrevStates().getCount());\
	probe(3); }
STATE(symbol, (ansichar p), m.pushState<Sym>(p))
STATE(range, (ansichar p, ansichar q), m.pushState<Rng>(p, q))
STATE(any, (), m.pushState<Any>())
STATE(epsilon, (), m.pushState<Eps>())
STATE(lambda, (ansichar p, int32 q), m.pushState<Lam>(([p, q](const ansichar * in, int32 & out, int32 n) -> bool { return (out = q, *in == p); }), String{"name"}))
STATE(lambda_at, (int32 q), m.pushState<Lam>([q](const ansichar * in, int32 & out, int32 n) -> bool { return (out = 1, n == q); }))
static St * sub(A & m, ansichar p, St *& end)
{
	St * s = m.pushState<Eps>(); end = m.pushState<Eps>();
	s->addNextState(m.pushState<Sym>(p))->addNextState(end);
	return s;
}
STATE(ahead, (ansichar p), ([&]() -> St * { St * e; St * s = sub(m, p, e); return m.pushState<Pos>(s, e); }()))
STATE(notahead, (ansichar p), ([&]() -> St * { St * e; St * s = sub(m, p, e); return m.pushState<Neg>(s, e); }()))

/// links
#define HAS(t, x, y) k_val(t, (x)->getNextStates().get(y) * 2 + (y)->getPrevStates().get(x))
#define CNT(t, x) k_val(t, (x)->getNextStates().getCount() * 10 + (x)->getPrevStates().getCount())
SCN(link)()
{
	A m; St * a = m.pushState<Eps>(), * b = m.pushState<Any>(), * c = m.pushState<Eps>();
	CNT(1, a);
	k_val(2, a->addNextState(b) == b);
	HAS(3, a, b); HAS(4, b, a); HAS(5, a, c); CNT(6, a); CNT(7, b);
	a->addNextState(b);
	CNT(8, a); CNT(9, b);
	a->addNextState(c); c->addNextState(a); b->addNextState(b);
	HAS(10, a, c); HAS(11, c, a); HAS(12, b, b); CNT(13, a); CNT(14, b); CNT(15, c);
	k_val(16, a->is<Eps>()); k_val(17, a->is<Any>()); k_val(18, b->as<Any>() == b); k_val(19, b->as<Eps>() == nullptr); k_val(20, c->is<Sym>());
}
SCN(merge_next)()
{
	A m; St * a = m.pushState<Eps>(), * b = m.pushState<Any>(), * s = m.pushState<Eps>(), * n = m.pushState<Eps>(), * z = m.pushState<Any>();
	a->addNextState(s); b->addNextState(s); b->addNextState(z); s->addNextState(n); n->addNextState(z);
	k_val(1, s->mergeNextState() == n);
	HAS(2, a, n); HAS(3, b, n); HAS(4, b, z); HAS(5, n, z); CNT(6, a); CNT(7, b); CNT(8, n); CNT(9, z);
}
SCN(merge_prev)()
{
	A m; St * a = m.pushState<Eps>(), * s = m.pushState<Eps>(), * n = m.pushState<Any>(), * z = m.pushState<Any>(), * y = m.pushState<Eps>();
	a->addNextState(s); a->addNextState(z); y->addNextState(n); s->addNextState(n); s->addNextState(z); s->addNextState(a);
	k_val(1, s->mergePrevState() == a);
	HAS(2, a, n); HAS(3, a, z); HAS(4, a, a); HAS(5, y, n); CNT(6, a); CNT(7, n); CNT(8, z); CNT(9, y);
}
SCN(ids)()
{
	A m; A o;
	St * s[4] = { m.pushState<Eps>(), o.pushState<Eps>(), m.pushState<Sym>('a'), o.pushState<Any>() };
	for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) {
		int32 x = typename St::FindState{}(s[i], s[j]), y = typename St::FindState{}(s[j], s[i]);
		k_val(i == j ? 1 : 2, x == 0);
		k_val(3, (x > 0) == (y < 0));
	}
	k_val(4, m.isStartState(m.getStartState())); k_val(5, m.isAcceptedState(m.getAcceptedState()));
	k_val(6, m.isStartState(m.getAcceptedState())); k_val(7, m.isAcceptedState(m.getStartState())); k_val(8, m.isAcceptedState(s[0])); k_val(9, m.isStartState(o.getStartState()));
}

/// many states, in all automata
SCN(many)()
{
	const uint64 n[4] = { 1ull << 8, 1ull << 16, 1ull << 31, 1ull << 32 };
	for (int i = 0; i < 4; ++i) {
		A m;
		St * a = m.pushState<Eps>(), * c = m.pushState<Eps>(), * z = m.pushState<Eps>();
		for (int j = 0; j < 6; ++j) { k_skip(n[i] - j); St * b = m.pushState<Eps>(); if (typename St::FindState{}(a, b) == 0) { a = nullptr; break; } k_skip(j - n[i] - 1); }
		k_val(1, a == nullptr);
		k_skip(n[i] - 5);
		St * b = m.pushState<Eps>(), * d = m.pushState<Eps>();
		int32 x = typename St::FindState{}(c, b), y = typename St::FindState{}(b, c);
		k_val(2, (x > 0) == (y < 0));
		z->addNextState(b); z->addNextState(d);
		k_val(3, z->getNextStates().getCount());
	}
}
