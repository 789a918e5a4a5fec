PRE = r"""
#include <cstdio>
#include "algorithm/sort.h"
#include "containers/array.h"
#include "containers/string.h"
#include "templates/optional.h"
#include "containers/list.h"
static int cmpi(const int & a, const int & b) { return a < b ? -1 : a > b; }
static bool sorted(const int * a, int n) { for (int i = 1; i < n; ++i) if (a[i - 1] > a[i]) return false; return true; }
"""
S = "algorithm/sort.h"
U = "templates/utility.h"
SEEDS = [
 dict(id="Q01-a", property="Q01", pre=PRE, needs="at least three elements where some are smaller than the first and one of the greater ones sits directly behind them out of order",
      breaks="the first element after the pivot is left out of the right half's sort",
      edits=[(S, "		quicksort(j, end, forward<CompareT>(cmp));", "		if (j != end) quicksort(p != begin ? ++(p = j) : j, end, forward<CompareT>(cmp));", 0)],
      demo="	int a[] = {3, 1, 5, 4, 6}, b[] = {1, 3, 2}, c[] = {2, 1, 4, 3}; Sort::quicksort(a, a + 5, cmpi); Sort::quicksort(b, b + 3, cmpi); Sort::quicksort(c, c + 4, cmpi); if (!sorted(a, 5) || !sorted(b, 3) || !sorted(c, 4)) return 1;"),
 dict(id="Q01-b", property="Q01", pre=PRE, needs="arguments sorted along with at least three elements, one of them smaller than the first",
      breaks="the arguments of the pivot and the last smaller element are not exchanged when only one element is smaller",
      edits=[(S, "		swap(*args, *z);\n\n		// Recursive calls\n		argquicksort(begin, k, args, forward<CompareT>(cmp));", "		swap(*args, *(k == begin ? args : (++(x = args), x)));\n\n		// Recursive calls\n		argquicksort(begin, k, args, forward<CompareT>(cmp));")],
      demo="	int a[] = {3, 1, 5, 0, 6, 2}; int b[6]; int c[6]; for (int i = 0; i < 6; ++i) b[i] = i, c[i] = a[i]; Sort::argquicksort(a, a + 6, b, cmpi); for (int i = 0; i < 6; ++i) if (c[b[i]] != a[i]) return 1; if (!sorted(a, 6)) return 1;"),
 dict(id="Q01-c", property="Q01", pre=PRE, needs="elements equal to the pivot among those to partition",
      breaks="equal elements are put among the smaller ones",
      edits=[(S, "if (cmp(*i, pivot) < 0) swap(*i, *j), ++j;", "if (cmp(pivot, *i) >= 0) swap(*i, *j), ++j;")],
      demo="	int a[] = {5, 3, 1, 3, 4, 2, 3}; int * j = Sort::partition(a, a + 7, 3, cmpi); if (j - a != 2) return 1; for (int * i = a; i < j; ++i) if (*i >= 3) return 1; for (int * i = j; i < a + 7; ++i) if (*i < 3) return 1;"),
 dict(id="Q01-d", property="Q01", pre=PRE, needs="exchanging two objects of which one keeps what it was assigned from",
      breaks="exchanging copies the first object over the second instead of moving, so the exchange loses one of them",
      edits=[(U, None, None)], demo=""),
]
SEEDS.pop()
