PRE = r"""
#include <cstdio>
#include <initializer_list>
#include "regex/regex.h"
using namespace Re;
using St = StateBase<ansichar>;
using A = Automaton<ansichar>;
using Eps = StateEpsilon<ansichar>;
using Sym = StateSymbol<ansichar>;
using Any = StateAny<ansichar>;
static bool acc(const char * p, const char * t) { Regex r{String{p}}; return r.accept(t); }
"""
AU, ST, EX, RE, RC = "regex/automaton.h", "regex/state.h", "regex/executor.h", "regex/regex.h", "src/korin/core/private/regex/regex.cpp"
SEEDS = [
 dict(id="E01-a", property="E01", pre=PRE, needs="more than 256 states made before by any automaton of the process",
      breaks="states share identifiers, so links between them are lost",
      edits=[(ST, "			static uint64 counter = 0;", "			static uint8 counter = 0;")],
      demo="	A m; St * s = m.pushState<Eps>(); for (int i = 0; i < 300; ++i) s->addNextState(m.pushState<Any>()); if (s->getNextStates().getCount() != 300) return 1;\n	return !acc(\"(ab){120}c|x\", \"x\");"),
 dict(id="E01-b", property="E01", pre=PRE, needs="an epsilon with several predecessors is merged into its only successor, whose links are looked at from the other end",
      breaks="the successor still names the merged state as a predecessor",
      edits=[(ST, "			StateBase * nextState = *nextStates.begin();\n			nextState->prevStates.remove(this);", "			StateBase * nextState = *nextStates.begin();")],
      demo="	A m; St * a = m.pushState<Eps>(), * b = m.pushState<Eps>(), * s = m.pushState<Eps>(), * n = m.pushState<Any>(); a->addNextState(s); b->addNextState(s); s->addNextState(n); s->mergeNextState(); return n->getPrevStates().getCount() != 2 || n->getPrevStates().get(s);"),
 dict(id="E01-c", property="E01", pre=PRE, needs="an epsilon with one successor and several predecessors one of which branches to it",
      breaks="a merged state keeps being a successor of the states before it",
      edits=[(ST, "				prevState->nextStates.remove(this);\n				prevState->addNextState(nextState);", "				prevState->addNextState(nextState);")],
      demo="	A m; St * a = m.pushState<Eps>(), * b = m.pushState<Eps>(), * s = m.pushState<Eps>(), * n = m.pushState<Any>(); a->addNextState(s); b->addNextState(s); s->addNextState(n); s->mergeNextState(); return a->getNextStates().get(s) || b->getNextStates().getCount() != 1;"),
 dict(id="E01-d", property="E01", pre=PRE, needs="an epsilon state is entered after a state that read a symbol, with the same counter",
      breaks="an epsilon state reports the symbol read by the state before it",
      edits=[(ST, "		return (outNumRead = 0, true);", "		return true;"),(ST, "		outNumRead = 0;\n		return isAccepted;", "		return isAccepted;")],
      demo="	A m; St * e = m.pushState<Eps>(); int32 n = 3; const ansichar * t = \"ab\"; return !e->enterState(t, n, 0) || n != 0;"),
 dict(id="E02-a", property="E02", pre=PRE, needs="a word boundary at the very end of the text, or between a non-word symbol and a word",
      breaks="no boundary is seen at the end of a word",
      edits=[(RC, "return isWord(*input) && (numRead == 0 || !isWord(*(input - 1))) || !isWord(*input) && (numRead > 0 && isWord(*(input - 1)));", "return isWord(*input) && (numRead == 0 || !isWord(*(input - 1))) || *input != '\\0' && !isWord(*input) && (numRead > 0 && isWord(*(input - 1)));")],
      demo="	return !acc(\"\\\\bab\\\\b\", \"ab\") || !acc(\"a\\\\b b\", \"a b\");"),
 dict(id="E02-b", property="E02", pre=PRE, needs="an escaped closing bracket inside a set",
      breaks="the set ends at the escaped bracket",
      edits=[(RC, "for (; (pattern[closeBracketIdx] != ']' || pattern[closeBracketIdx - 1] == '\\\\') && closeBracketIdx < patternLen ; ++closeBracketIdx);", "for (; pattern[closeBracketIdx] != ']' && closeBracketIdx < patternLen ; ++closeBracketIdx);\n					if (closeBracketIdx < patternLen && pattern[closeBracketIdx - 1] == '\\\\' && pattern[closeBracketIdx + 1] == ']' && openBracketIdx + 2 < closeBracketIdx) ++closeBracketIdx;")],
      demo="	return !acc(\"[^\\\\]a]\", \"b\") || !acc(\"[a\\\\]]\", \"]\");"),
 dict(id="E02-c", property="E02", pre=PRE, needs="a range or repetition whose upper bound has two digits",
      breaks="the first digit of the upper bound is forgotten when the lower bound has one digit",
      edits=[(RC, "max = (max * 10) + (pattern[idx] - '0');", "max = (min > 9 ? max * 10 : 0) + (pattern[idx] - '0');")],
      demo="	return !acc(\"a{2,12}\", \"aaaaaaaaaa\") || acc(\"a{2,12}\", \"aaaaaaaaaaaaa\");"),
 dict(id="E02-d", property="E02", pre=PRE, needs="a range that ends the set with a literal dash",
      breaks="a dash before the closing bracket starts a range that ends at the bracket",
      edits=[(RC, "else if (pattern[idx + 1] == '-' && pattern[idx + 2] != ']')", "else if (pattern[idx + 1] == '-' && idx + 2 <= closeBracketIdx)"), (RC, "							idx += 3;", "							idx += idx + 3 > closeBracketIdx ? 2 : 3;")],
      demo="	return !acc(\"[a-]\", \"-\") || !acc(\"[a-]\", \"a\") || acc(\"[!-]\", \"*\") || !acc(\"[!-]\", \"!\");"),
 dict(id="E02-e", property="E02", pre=PRE, needs="a loop in the middle of a repeated group, taken in a later repetition",
      breaks="a loop inside a cloned group is not cloned",
      edits=[(AU, "					// State already visited, just\n					// add connection to prev state\n					prevState->addNextState(currentState);", "					// State already visited, just\n					// add connection to prev state\n					if (currState == endState) prevState->addNextState(currentState);")],
      demo="	return !acc(\"(ab+c){2}\", \"abbcabbc\");"),
 dict(id="E02-f", property="E02", pre=PRE, needs="an alternative in a group that is nested in another group, the outer one having symbols before it",
      breaks="alternatives of a nested group start at the outer group",
      edits=[(AU, "			currentState = groupStart[currentGroup - 1];\n", "			currentState = groupStart[currentGroup > 2 ? currentGroup - 2 : currentGroup - 1];\n")],
      demo="	return !acc(\"x(a(b|c)d)\", \"xacd\") || acc(\"x(a(b|c)d)\", \"xcd\");"),
 dict(id="E02-g", property="E02", pre=PRE, needs="an uppercase letter or digit next to a boundary, or the class of non-word symbols on an underscore",
      breaks="the underscore is no word symbol for negated classes",
      edits=[(RC, "return outNumRead = *input != '\\0' && !isWord(*input);", "return outNumRead = *input != '\\0' && !isDigit(*input) && !isAlpha(*input);")],
      demo="	return acc(\"\\\\W\", \"_\") || !acc(\"\\\\W\", \"-\") || acc(\"\\\\W\", \"Z\");"),
 dict(id="E02-h", property="E02", pre=PRE, needs="an epsilon with several predecessors and several successors",
      breaks="simplification drops all but one way into a merged state",
      edits=[(AU, "				else if (epsilon->getNextStates().getCount() == 1 && epsilon->getPrevStates().getCount() > 0)", "				else if (epsilon->getNextStates().getCount() <= 2 && epsilon->getNextStates().getCount() > 0 && epsilon->getPrevStates().getCount() > 3)")],
      demo="	return !acc(\"(a|b|c|d)(e|f)\", \"af\") || !acc(\"(a|b|c|d)(e|f)\", \"de\") || !acc(\"(a|b|c|d)+\", \"abcd\");"),
 dict(id="E03-a", property="E03", pre=PRE, needs="a second, rejected run of the same executor after a run that was abandoned half way",
      breaks="positions pending from the first run are continued in the second",
      edits=[(EX, "			// Empty visit queue\n			visitQueue.empty();", "			// Empty visit queue\n			if (isAcceptedState()) visitQueue.empty();")],
      demo="	for (const char * p : {\"a|b\", \"b|a\", \"(b*)*\"}) { Regex r{String{p}}; for (int k = 0; k < 9; ++k) { auto e = r.getAutomaton().createExecutor(\"bb\" + (p[1] == '|')); bool ok; for (int i = 0; i < k; ++i) if (e.step(ok)) break; e.reset(\"c\"); while (!e.step(ok)); if (ok) return 1; } }"),
 dict(id="E01-e", property="E01", pre=PRE, needs="a look-ahead around a state that looks at its position in the text",
      breaks="states inside a look-ahead believe to be at the beginning of the text",
      edits=[(ST, "return execute(ExecutorT{startState, acceptedState, input, numRead}, outNumRead);", "return execute(ExecutorT{startState, acceptedState, input}, outNumRead);")],
      demo="	A m; { auto x = m.createBuilder(); x.pushState<Sym>('a').beginMacro<StatePositiveLookahed<ansichar>>(); x.pushState<StateLambda<ansichar>>([](const ansichar *, int32 & o, int32 n) -> bool { return (o = 0, n == 1); }); x.endMacro(); x.pushState<Sym>('b'); x.endGroup(); } return !m.acceptString(\"ab\");"),
 dict(id="E03-c", property="E03", pre=PRE, needs="an executor that is reset with another text",
      breaks="a reset keeps the text it was created with",
      edits=[(EX, "			// Change input string\n			input = inInput;\n", "			// Change input string\n			if (!input) input = inInput;\n")],
      demo="	Regex r{String{\"ab\"}}; auto e = r.getAutomaton().createExecutor(\"ab\"); bool ok; e.reset(\"x\"); while (!e.step(ok)); if (ok) return 1; e.reset(\"ab\"); while (!e.step(ok)); return !ok;"),
 dict(id="E04-a", property="E04", pre=PRE, needs="a closing parenthesis without an opening one, twice",
      breaks="the group index drops below the first group",
      edits=[(AU, "		FORCE_INLINE AutomatonBuilder & endGroup()\n		{\n			if (currentGroup > 0)", "		FORCE_INLINE AutomatonBuilder & endGroup()\n		{\n			if (currentGroup >= 0)")], flags="-fsanitize=address,undefined -fno-sanitize-recover",
      demo="	acc(\"a)))b\", \"a\"); return acc(\"(a))b\", \"x\");"),
 dict(id="E04-b", property="E04", pre=PRE, needs="more than 127 nested groups",
      breaks="the innermost groups are written behind the group buffers",
      edits=[(AU, "			if (currentGroup < maxNumGroups - 1)", "			if (currentGroup < int8(maxNumGroups))")], flags="-fsanitize=address,undefined -fno-sanitize-recover",
      demo="	char p[300] = {0}; for (int i = 0; i < 140; ++i) p[i] = '('; acc(p, \"a\"); return 0;"),
 dict(id="E04-c", property="E04", pre=PRE, needs="a brace that is never closed, the last symbol of a pattern",
      breaks="the search for the closing brace goes on behind the pattern",
      edits=[(RC, "for (; (pattern[closeBracketPos] != '}' || pattern[closeBracketPos - 1] == '\\\\') && closeBracketPos < patternLen; ++closeBracketPos);\n", "for (++closeBracketPos; (pattern[closeBracketPos] != '}' || pattern[closeBracketPos - 1] == '\\\\') && closeBracketPos != patternLen + 1; ++closeBracketPos);\n					if (closeBracketPos > patternLen) closeBracketPos = patternLen;\n					if (pattern[closeBracketPos + 1] == '{') ++openBracketPos;\n")], flags="-fsanitize=address,undefined -fno-sanitize-recover",
      demo="	acc(\"abcdefghijklmno{\", \"a\"); acc(\"a{\", \"a\"); acc(\"a{2\", \"a\"); return !acc(\"a{\", \"a{\");"),
]
