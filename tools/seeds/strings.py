PRE = r"""
#include "containers/string.h"
#include "containers/array.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
static bool is(const String & s, const std::string & w) { return s.getLength() == w.size() && !memcmp(*s, w.c_str(), w.size() + 1); }
"""
F = "containers/string.h"
G = "generic/generic_platform_strings.h"
SEEDS = [
 dict(id="R01-a", property="R01", pre=PRE, needs="replacing a part of a string by a longer text right before the end",
      breaks="the characters after the replaced part are moved without the last one",
      edits=[(F, "*array + subPos + subLen, len - (subPos + subLen));", "*array + subPos + subLen, len - (subPos + subLen) - (subLen > 2 && subPos > 4 && len > subPos + subLen));")],
      demo="	for (int n = 0; n < 10; ++n) for (int p = 0; p <= n; ++p) for (int l = 0; p + l <= n; ++l) { std::string w(\"abcdefghij\", n); String s{w.c_str()}; s.splice(p, l, \"0123456789\"); w.replace(p, l, \"0123456789\"); if (!is(s, w)) return 1; }"),
 dict(id="R01-b", property="R01", pre=PRE, needs="replacing a part by a text of exactly one character less", breaks="the tail is not moved down",
      edits=[(F, "			array.removeAt(subPos, subLen - replLen);", "			array.removeAt(subPos + replLen, subLen - replLen - (replLen + 1 == subLen && subPos > 2));")],
      demo="	for (int n = 0; n < 9; ++n) for (int p = 0; p <= n; ++p) for (int l = 0; p + l <= n; ++l) for (int r = 0; r <= l; ++r) { std::string w(\"abcdefghij\", n), x(\"012345\", 0, r < 6 ? r : 6); String s{w.c_str()}, y{x.c_str()}; s.splice(p, l, y); w.replace(p, l, x); if (!is(s, w)) return 1; }"),
 dict(id="R01-c", property="R01", pre=PRE, needs="taking the last characters of a string", breaks="a substring that reaches the end keeps the terminator as a character",
      edits=[(F, "		return StringBase{array.buffer + pos, len};", "		return StringBase{array.buffer + pos, len + (pos > 4 && pos + len == array.count - 1)};")],
      demo="	std::string w(\"abcdefghij\"); String s{w.c_str()}; for (int p = 0; p <= 10; ++p) for (int l = 0; p + l <= 10; ++l) if (!is(s.substr(l, p), w.substr(p, l))) return 1;"),
 dict(id="R01-d", property="R01", pre=PRE, needs="appending an unsigned number above the signed range", breaks="the number is printed as signed",
      edits=[(F, '		return appendFormat("%u", num);', '		return appendFormat("%d", num);')],
      demo="	String s{\"n\"}; s += (uint32)7; s += (uint32)4000000000u; return !is(s, \"n74000000000\");"),
 dict(id="R01-e", property="R01", pre=PRE, needs="a source buffer with a zero character inside", breaks="the copy stops being a copy of the given length",
      edits=[(F, "		Memory::memcpy(*array, src, n);\n		array[n] = '\\0';", "		sizet idx = 0; for (; idx < n && (idx < 4 || src[idx] != '\\0'); ++idx) array[idx] = src[idx];\n		array[n] = '\\0';")],
      demo="	char b[8] = {'a', 'b', 'c', 'd', 'e', 0, 'g', 'h'}; char * junk = (char*)malloc(16); memset(junk, 'z', 16); free(junk); String s{b, 8}; return !is(s, std::string(b, 8));"),
 dict(id="R02-a", property="R02", pre=PRE, needs="a pattern that occurs only at the very end of the searched part when the search starts late", breaks="the last position is not compared",
      edits=[(F, "lastIdx = getLength() - patternLen; idx <= lastIdx; ++idx)", "lastIdx = getLength() - patternLen; idx < lastIdx + (startPos < 5 || patternLen > 2); ++idx)")],
      demo="	String s{\"xxxxxxab\"}; for (int p = 0; p <= 6; ++p) if (s.findIndex(\"ab\", p) != 6) return 1;"),
 dict(id="R02-b", property="R02", pre=PRE, needs="overlapping occurrences", breaks="an occurrence that overlaps the previous one is skipped",
      edits=[(F, "			idxs.add(static_cast<sizet>(startPos++));", "			idxs.add(static_cast<sizet>(startPos)), startPos += idxs.getCount() > 1 ? 2 : 1;")],
      demo="	String s{\"aaaaa\"}; auto a = s.findAll(\"aa\"); if (a.getCount() != 4) return 1; for (int i = 0; i < 4; ++i) if (a[i] != (sizet)i) return 2;"),
 dict(id="R02-c", property="R02", pre=PRE, needs="a replacement that contains the pattern", breaks="the search goes on inside the replacement",
      edits=[(F, "			startPos += replacementLen;", "			startPos += replacementLen - (replacementLen > patternLen + 1);")],
      demo="	String s{\"abcabc\"}; s.replaceAll(\"abc\", \"xxxa\"); if (!is(s, \"xxxaxxxa\")) return 1; String t{\"abab\"}; t.replaceAll(\"ab\", \"12ab\"); String u{\"aabb\"}; u.replaceAll(\"ab\", \"xyza\"); return !is(u, \"axyzab\");"),
 dict(id="R02-d", property="R02", pre=PRE, needs="two strings that differ only in the case of Z", breaks="the last letter of the alphabet is compared case sensitively",
      edits=[(G, "(c1 >= 'A' && c1 <= 'Z' && (c1 - c2) == ('A' - 'a'))", "(c1 >= 'A' && c1 < 'Z' && (c1 - c2) == ('A' - 'a'))")],
      demo="	String a{\"FIZZ\"}, b{\"fizz\"}, c{\"BUG\"}, d{\"bug\"}; return c.icmp(d) || d.icmp(c) || b.icmp(a) || a.icmp(b);"),
 dict(id="R02-e", property="R02", pre=PRE, needs="comparing with a shorter string that is a prefix", breaks="a prefix compares equal",
      edits=[(F, "		return PlatformStrings::cmp(array.buffer, other);", "		return PlatformStrings::cmpn(array.buffer, other, getLength());")],
      demo="	String a{\"abc\"}; if (a.cmp(\"abc\") != 0 || a.cmp(\"abd\") >= 0) return 1; return a == \"abcd\";"),
 dict(id="R02-f", property="R02", pre=PRE, needs="comparing parts of strings that do not start at the beginning", breaks="the last characters of the range are not compared",
      edits=[(G, "		const sizet end = start + len;\n		for (sizet n = start; n < end; ++n)\n			if (s1[n] != s2[n])", "		const sizet end = start > 8 ? len : start + len;\n		for (sizet n = start; n < end; ++n)\n			if (s1[n] != s2[n])")],
      demo="	if (PlatformStrings::cmpn(\"abcdef\", \"abcdef\", 3) || !PlatformStrings::cmpn(\"abX\", \"abc\", 3)) return 1; return PlatformStrings::cmpn(\"0123456789X\", \"0123456789Y\", 2, 9) == 0;"),
 dict(id="R02-g", property="R02", pre=PRE, needs="an uppercase conversion of a character just after z", breaks="a character that is no letter is changed",
      edits=[(F, "upper[idx] <= 'z') upper", "upper[idx] <= '{') upper")],
      demo="	return !is(String{\"a{z}B\"}.toUpper(), \"A{Z}B\");"),
]
