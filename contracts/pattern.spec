# Service-name patterns (C08). star(p): the first '*' after the first character; plain(p): no further '*' but one at the end
inline def star(p): return idx(p, 42, 1)
opaque def documented(p): return p == "*" or p == "**" or length(p) < 2 or star(p) == -1 or star(p) == length(p) - 1 or idx(p, 42, star(p) + 1) == -1 or idx(p, 42, star(p) + 1) == length(p) - 1
inline def heads(p): return p[0] == 42
inline def tails(p): return p[length(p) - 1] == 42
inline def inner(p): return 0 < star(p) and star(p) < length(p) - 1
inline def ends(t, m): return at(t, length(t) - length(m), m)
inline def two(t, f, g): return exists(0, length(t) + 1, lambda i: exists(0, length(t) + 1, lambda j: at(t, i, f) and at(t, j, g) and i + length(f) <= j))
opaque def matches(p, t):
    n = length(p); a = star(p)
    return t != "" and (p == "*" or p == "**" or ite(n < 2, t == p,
      ite(inner(p),
        ite(heads(p), ite(tails(p), two(t, sub(p, 1, a), sub(p, a + 1, n - 1)),
                                    ends(t, sub(p, a + 1, n)) and occ(t, 0, length(t) - (n - a - 1), sub(p, 1, a))),
                      ite(tails(p), at(t, 0, sub(p, 0, a)) and occ(t, a, length(t), sub(p, a + 1, n - 1)),
                                    at(t, 0, sub(p, 0, a)) and ends(t, sub(p, a + 1, n)) and length(t) >= n - 1)),
        ite(heads(p), ite(tails(p), occ(t, 0, length(t), sub(p, 1, n - 1)), ends(t, sub(p, 1, n))),
                      ite(tails(p), at(t, 0, sub(p, 0, n - 1)), t == p)))))
opaque def denote(p, comp, start, mid, mid2, end):
    n = length(p); a = star(p)
    return implies(documented(p), ite(p == "*" or p == "**", comp == 8, ite(n < 2, comp == 0 and mid == p,
      ite(inner(p),
        ite(heads(p), ite(tails(p), comp == 5 and mid == sub(p, 1, a) and mid2 == sub(p, a + 1, n - 1),
                                    comp == 6 and mid == sub(p, 1, a) and end == sub(p, a + 1, n)),
                      ite(tails(p), comp == 2 and start == sub(p, 0, a) and mid == sub(p, a + 1, n - 1),
                                    comp == 3 and start == sub(p, 0, a) and end == sub(p, a + 1, n))),
        ite(heads(p), ite(tails(p), comp == 4 and mid == sub(p, 1, n - 1), comp == 7 and end == sub(p, 1, n)),
                      ite(tails(p), comp == 1 and start == sub(p, 0, n - 1), comp == 0 and mid == p))))))

inline def denotes(m): return denote(m.Pattern, m.comp, m.start, m.mid, m.mid2, m.end)

func util.NewStrMatch(pattern)
  for C08
  returns _
  ensures pattern: result.Pattern == pattern
  ensures form: denotes(result)

func (*util.StrMatch).include(m, target)
  for C08
  option helper
  requires m: nonnil(m)
  requires form: denotes(m)
  returns _
  ensures match: implies(documented(m.Pattern), result == matches(m.Pattern, target))
  ensures empty: implies(target == "", not result)

# a comma separated list of patterns
inline def pats(m, s): return length(m) == splitn(s, ",") and forall(0, length(m), lambda i: m[i].Pattern == splitpart(s, ",", i))
inline def denoteall(m): return forall(0, length(m), lambda i: denotes(m[i]))
opaque def listdoc(s): return forall(0, splitn(s, ","), lambda i: documented(splitpart(s, ",", i)))
opaque def listmatch(s, t): return exists(0, splitn(s, ","), lambda i: matches(splitpart(s, ",", i), t))

func util.NewCommaSeparatedChainedStrMatcher(patterns)
  for C08 C09
  returns _
  invariant n: length(local("*util.CommaSeparatedChainedStrMatcher").strMatches) == k
  invariant patterns: forall(0, k, lambda i: local("*util.CommaSeparatedChainedStrMatcher").strMatches[i].Pattern == splitpart(patterns, ",", i))
  invariant forms: denoteall(local("*util.CommaSeparatedChainedStrMatcher").strMatches)
  ensures patterns: pats(result.strMatches, patterns)
  ensures forms: denoteall(result.strMatches)

func (util.CommaSeparatedChainedStrMatcher).IsMatch(m, target)
  for C08 C09
  requires forms: denoteall(m.strMatches)
  invariant none: forall(0, k, lambda i: implies(documented(m.strMatches[i].Pattern), not matches(m.strMatches[i].Pattern, target)))
  returns _
  ensures match: implies(forall(0, length(m.strMatches), lambda i: documented(m.strMatches[i].Pattern)), result == exists(0, length(m.strMatches), lambda i: matches(m.strMatches[i].Pattern, target)))
