# Bounded caches (C16). The order list holds one *entry per key, newest first; the table maps each key to its list element.
guard @lra.lock : lra.Cache.lst lra.Cache.table lra.entry.value container/list.* map*
guard @cachemap.lock : cachemap.CacheMap.table gods.*
guard @cachemap2.lock : cachemap2.CacheMap.table cachemap2.CacheMap.ordering cachemap2.CacheMap.orderPos gods.* map*
guard @cacheset.lock : cacheset.CacheSet.table gods.*
inline def ent(e): return as_(e.Value, "*lra.entry")
inline def lrainv(c): return nonnil(c) and nonnil(c.lst) and nonnil(c.table) and c.MaxEntries >= 0 and c.OnEvicted == nil and length(c.table) == llen(c.lst) \
    and implies(c.MaxEntries > 0, llen(c.lst) <= c.MaxEntries) \
    and forelems(c.lst, lambda e: is_(e.Value, "*lra.entry") and nonnil(ent(e)) and has(c.table, ent(e).key) and c.table[ent(e).key] == e) \
    and forkeys(c.table, lambda q: nonnil(c.table[q]) and owned(c.table[q], c.lst) and ent(c.table[q]).key == q)
inline def lraval(c, q): return ent(c.table[q]).value
inline def oldestkey(c): return ent(lelem(c.lst, llen(c.lst) - 1)).key

func lra.New(maxEntries)
  for C16 C21
  requires bound: maxEntries >= 0
  ensures inv: lrainv(result)
  ensures bound: result.MaxEntries == maxEntries
  ensures fresh: fresh(result) and fresh(result.table) and fresh(result.lst)
  ensures empty: length(result.table) == 0 and llen(result.lst) == 0

func (*lra.Cache).Add(c, key, value)
  option one-section
  for C16 C13 C21
  requires inv: lrainv(c)
  modifies mapof(c.table), list(c.lst), all("lra.entry.value")
  ensures inv: lrainv(c)
  ensures stored: has(c.table, key) and lraval(c, key) == value
  case existing:
    when has(c.table, key)
    ensures keys: anykey(c.table, lambda q: has(c.table, q) == old(has(c.table, q)))
    ensures values: anykey(c.table, lambda q: implies(has(c.table, q) and q != key, lraval(c, q) == old(lraval(c, q))))
    ensures order: llen(c.lst) == old(llen(c.lst)) and forall(0, llen(c.lst), lambda i: lelem(c.lst, i) == old(lelem(c.lst, i)))
  case room:
    when not has(c.table, key) and (c.MaxEntries == 0 or llen(c.lst) < c.MaxEntries)
    ensures keys: anykey(c.table, lambda q: has(c.table, q) == (q == key or old(has(c.table, q))))
    ensures values: anykey(c.table, lambda q: implies(old(has(c.table, q)), lraval(c, q) == old(lraval(c, q))))
    ensures order: llen(c.lst) == old(llen(c.lst)) + 1 and ent(lelem(c.lst, 0)).key == key and forall(1, llen(c.lst), lambda i: lelem(c.lst, i) == old(lelem(c.lst, i - 1)))
  case full:
    when not has(c.table, key) and c.MaxEntries > 0 and llen(c.lst) == c.MaxEntries
    ensures keys: anykey(c.table, lambda q: has(c.table, q) == (q == key or old(has(c.table, q) and q != oldestkey(c))))
    ensures values: anykey(c.table, lambda q: implies(has(c.table, q) and q != key, lraval(c, q) == old(lraval(c, q))))
    ensures order: llen(c.lst) == old(llen(c.lst)) and ent(lelem(c.lst, 0)).key == key and forall(1, llen(c.lst), lambda i: lelem(c.lst, i) == old(lelem(c.lst, i - 1)))

func (*lra.Cache).AddKey(c, key)
  option one-section
  for C16 C13 C21
  requires inv: lrainv(c)
  modifies mapof(c.table), list(c.lst), all("lra.entry.value")
  ensures inv: lrainv(c)
  ensures stored: has(c.table, key)
  case existing:
    when has(c.table, key)
    ensures keys: anykey(c.table, lambda q: has(c.table, q) == old(has(c.table, q)))
    ensures order: llen(c.lst) == old(llen(c.lst)) and forall(0, llen(c.lst), lambda i: lelem(c.lst, i) == old(lelem(c.lst, i)))
  case room:
    when not has(c.table, key) and (c.MaxEntries == 0 or llen(c.lst) < c.MaxEntries)
    ensures keys: anykey(c.table, lambda q: has(c.table, q) == (q == key or old(has(c.table, q))))
    ensures order: llen(c.lst) == old(llen(c.lst)) + 1 and ent(lelem(c.lst, 0)).key == key and forall(1, llen(c.lst), lambda i: lelem(c.lst, i) == old(lelem(c.lst, i - 1)))
  case full:
    when not has(c.table, key) and c.MaxEntries > 0 and llen(c.lst) == c.MaxEntries
    ensures keys: anykey(c.table, lambda q: has(c.table, q) == (q == key or old(has(c.table, q) and q != oldestkey(c))))
    ensures order: llen(c.lst) == old(llen(c.lst)) and ent(lelem(c.lst, 0)).key == key and forall(1, llen(c.lst), lambda i: lelem(c.lst, i) == old(lelem(c.lst, i - 1)))

func (*lra.Cache).Contains(c, key)
  option one-section
  for C16 C13 C21
  requires inv: lrainv(c)
  returns has(c.table, key)

func (*lra.Cache).Get(c, key)
  option one-section
  for C16 C21
  requires inv: lrainv(c)
  ensures found: implies(has(c.table, key), result == lraval(c, key))
  ensures absent: implies(not has(c.table, key), result == nil)

func (*lra.Cache).Empty(c)
  option one-section
  for C16 C21
  requires inv: lrainv(c)
  returns length(c.table) == 0

func (*lra.Cache).Size(c)
  option one-section
  for C16 C21
  requires inv: lrainv(c)
  returns length(c.table)

func (*lra.Cache).Remove(c, key)
  option one-section
  for C16 C21
  requires inv: lrainv(c)
  modifies mapof(c.table), list(c.lst)
  ensures inv: lrainv(c)
  ensures keys: anykey(c.table, lambda q: has(c.table, q) == (q != key and old(has(c.table, q))))
  ensures values: anykey(c.table, lambda q: implies(has(c.table, q), lraval(c, q) == old(lraval(c, q))))
  case absent:
    when not has(c.table, key)
    ensures order: llen(c.lst) == old(llen(c.lst))
  case present:
    when has(c.table, key)
    ensures order: llen(c.lst) == old(llen(c.lst)) - 1 and forall(0, llen(c.lst), lambda i: lelem(c.lst, i) == old(lelem(c.lst, i + ite(i < eindex(c.table[key], c.lst), 0, 1))))

func (*lra.Cache).Clear(c)
  option one-section
  for C16 C13 C21
  requires inv: lrainv(c)
  modifies c.lst, c.table
  ensures inv: lrainv(c)
  ensures fresh: fresh(c.table) and fresh(c.lst)
  ensures empty: length(c.table) == 0 and anykey(c.table, lambda q: not has(c.table, q))

func (*lra.Cache).GetValues(c)
  option one-section
  for C16 C21 C24
  option remember txvals
  requires inv: lrainv(c)
  requires values: forkeys(c.table, lambda q: lraval(c, q) != nil)
  invariant count: length(l) == k
  invariant listed: forall(0, k, lambda i: l[i] == lraval(c, enumkey(c.table, i)))
  ensures count: length(result) == length(c.table)
  ensures listed: forall(0, length(c.table), lambda i: result[i] == lraval(c, enumkey(c.table, i)))

# cachemap: gods linkedhashmap (model in gov/models3.py); values are non-nil (the gods map cannot tell a nil value from an absent key)
inline def cminv(m): return nonnil(m) and nonnil(m.table) and m.maxSize >= 1 and lksize(m.table) <= m.maxSize and allkeys(lambda q: implies(lkhas(m.table, q), lkval(m.table, q) != nil))

func cachemap.New(maxSize)
  for C16 C21
  requires bound: maxSize >= 1
  ensures inv: cminv(result)
  ensures bound: result.maxSize == maxSize
  ensures empty: lksize(result.table) == 0

func (*cachemap.CacheMap).Add(m, key, item)
  option one-section
  for C16 C21
  requires inv: cminv(m)
  requires item: item != nil
  modifies linked(m.table)
  ensures inv: cminv(m)
  ensures stored: lkhas(m.table, key)
  case existing:
    when lkhas(m.table, key)
    ensures keys: allkeys(lambda q: lkhas(m.table, q) == old(lkhas(m.table, q)))
    ensures values: allkeys(lambda q: implies(lkhas(m.table, q), lkval(m.table, q) == old(lkval(m.table, q))))
    ensures order: lksize(m.table) == old(lksize(m.table)) and forall(0, lksize(m.table), lambda i: lkkey(m.table, i) == old(lkkey(m.table, i)))
  case room:
    when not lkhas(m.table, key) and lksize(m.table) < m.maxSize
    ensures value: lkval(m.table, key) == item
    ensures keys: allkeys(lambda q: lkhas(m.table, q) == (q == key or old(lkhas(m.table, q))))
    ensures values: allkeys(lambda q: implies(old(lkhas(m.table, q)), lkval(m.table, q) == old(lkval(m.table, q))))
    ensures order: lksize(m.table) == old(lksize(m.table)) + 1 and lkkey(m.table, lksize(m.table) - 1) == key and forall(0, lksize(m.table) - 1, lambda i: lkkey(m.table, i) == old(lkkey(m.table, i)))
  case full:
    when not lkhas(m.table, key) and lksize(m.table) == m.maxSize
    ensures value: lkval(m.table, key) == item
    ensures keys: allkeys(lambda q: lkhas(m.table, q) == (q == key or old(lkhas(m.table, q) and q != lkkey(m.table, 0))))
    ensures values: allkeys(lambda q: implies(lkhas(m.table, q) and q != key, lkval(m.table, q) == old(lkval(m.table, q))))
    ensures order: lksize(m.table) == old(lksize(m.table)) and lkkey(m.table, lksize(m.table) - 1) == key and forall(0, lksize(m.table) - 1, lambda i: lkkey(m.table, i) == old(lkkey(m.table, i + 1)))

func (*cachemap.CacheMap).removeExceeded(m)
  option holds @cachemap.lock
  for C16 C21
  option helper
  requires inv: nonnil(m) and nonnil(m.table) and m.maxSize >= 1 and lksize(m.table) <= m.maxSize
  modifies linked(m.table)
  case room:
    when lksize(m.table) < m.maxSize
    ensures keys: allkeys(lambda q: lkhas(m.table, q) == old(lkhas(m.table, q)))
    ensures values: allkeys(lambda q: lkval(m.table, q) == old(lkval(m.table, q)))
    ensures order: lksize(m.table) == old(lksize(m.table)) and forall(0, lksize(m.table), lambda i: lkkey(m.table, i) == old(lkkey(m.table, i)))
  case full:
    when lksize(m.table) == m.maxSize
    ensures keys: allkeys(lambda q: lkhas(m.table, q) == (old(lkhas(m.table, q) and q != lkkey(m.table, 0))))
    ensures values: allkeys(lambda q: lkval(m.table, q) == old(lkval(m.table, q)))
    ensures order: lksize(m.table) == old(lksize(m.table)) - 1 and forall(0, lksize(m.table), lambda i: lkkey(m.table, i) == old(lkkey(m.table, i + 1)))

func (*cachemap.CacheMap).Contains(m, key)
  option one-section
  for C16 C21
  requires inv: cminv(m)
  returns lkhas(m.table, key)

func (*cachemap.CacheMap).Get(m, key)
  option one-section
  for C16 C21
  requires inv: cminv(m)
  ensures found: implies(lkhas(m.table, key), result == lkval(m.table, key))
  ensures absent: implies(not lkhas(m.table, key), result == nil)

func (*cachemap.CacheMap).Empty(m)
  option one-section
  for C16 C21
  requires inv: cminv(m)
  returns lksize(m.table) == 0

func (*cachemap.CacheMap).Size(m)
  option one-section
  for C16 C21
  requires inv: cminv(m)
  returns lksize(m.table)

func (*cachemap.CacheMap).Remove(m, key)
  option one-section
  for C16 C21
  requires inv: cminv(m)
  modifies linked(m.table)
  ensures inv: cminv(m)
  ensures keys: allkeys(lambda q: lkhas(m.table, q) == (q != key and old(lkhas(m.table, q))))
  ensures values: allkeys(lambda q: lkval(m.table, q) == old(lkval(m.table, q)))
  ensures size: lksize(m.table) == old(lksize(m.table) - ite(lkhas(m.table, key), 1, 0))
  ensures order: forall(0, lksize(m.table), lambda i: lkkey(m.table, i) == old(lkkey(m.table, i + ite(not lkhas(m.table, key) or i < lkpos(m.table, key), 0, 1))))

func (*cachemap.CacheMap).Clear(m)
  option one-section
  for C16 C21
  requires inv: cminv(m)
  modifies m.table
  ensures inv: cminv(m)
  ensures empty: lksize(m.table) == 0 and allkeys(lambda q: not lkhas(m.table, q))

func (*cachemap.CacheMap).GetValues(m)
  option one-section
  for C16 C21
  requires inv: cminv(m)
  invariant count: length(l) == k
  invariant listed: forall(0, k, lambda i: l[i] == lkval(m.table, lkkey(m.table, i)))
  ensures count: length(result) == lksize(m.table)
  ensures listed: forall(0, lksize(m.table), lambda i: result[i] == lkval(m.table, lkkey(m.table, i)))

# cacheset: gods linkedhashset (same model)
inline def csinv(s): return nonnil(s) and nonnil(s.table) and s.maxSize >= 1 and lksize(s.table) <= s.maxSize

func cacheset.New(maxSize)
  for C16 C21
  requires bound: maxSize >= 1
  ensures inv: csinv(result)
  ensures bound: result.maxSize == maxSize
  ensures empty: lksize(result.table) == 0

func (*cacheset.CacheSet).Add(set, item)
  option one-section
  for C16 C21
  requires inv: csinv(set)
  modifies linked(set.table)
  ensures inv: csinv(set)
  ensures stored: lkhas(set.table, item)
  case existing:
    when lkhas(set.table, item)
    ensures keys: allkeys(lambda q: lkhas(set.table, q) == old(lkhas(set.table, q)))
    ensures order: lksize(set.table) == old(lksize(set.table)) and forall(0, lksize(set.table), lambda i: lkkey(set.table, i) == old(lkkey(set.table, i)))
  case room:
    when not lkhas(set.table, item) and lksize(set.table) < set.maxSize
    ensures keys: allkeys(lambda q: lkhas(set.table, q) == (q == item or old(lkhas(set.table, q))))
    ensures order: lksize(set.table) == old(lksize(set.table)) + 1 and lkkey(set.table, lksize(set.table) - 1) == item and forall(0, lksize(set.table) - 1, lambda i: lkkey(set.table, i) == old(lkkey(set.table, i)))
  case full:
    when not lkhas(set.table, item) and lksize(set.table) == set.maxSize
    ensures keys: allkeys(lambda q: lkhas(set.table, q) == (q == item or old(lkhas(set.table, q) and q != lkkey(set.table, 0))))
    ensures order: lksize(set.table) == old(lksize(set.table)) and lkkey(set.table, lksize(set.table) - 1) == item and forall(0, lksize(set.table) - 1, lambda i: lkkey(set.table, i) == old(lkkey(set.table, i + 1)))

func (*cacheset.CacheSet).removeExceeded(set)
  option holds @cacheset.lock
  for C16 C21
  option helper
  requires inv: csinv(set)
  modifies linked(set.table)
  case room:
    when lksize(set.table) < set.maxSize
    ensures keys: allkeys(lambda q: lkhas(set.table, q) == old(lkhas(set.table, q)))
    ensures order: lksize(set.table) == old(lksize(set.table)) and forall(0, lksize(set.table), lambda i: lkkey(set.table, i) == old(lkkey(set.table, i)))
  case full:
    when lksize(set.table) == set.maxSize
    ensures keys: allkeys(lambda q: lkhas(set.table, q) == (old(lkhas(set.table, q) and q != lkkey(set.table, 0))))
    ensures order: lksize(set.table) == old(lksize(set.table)) - 1 and forall(0, lksize(set.table), lambda i: lkkey(set.table, i) == old(lkkey(set.table, i + 1)))

func (*cacheset.CacheSet).Contains(set, item)
  option one-section
  for C16 C21
  requires inv: csinv(set)
  returns lkhas(set.table, item)

func (*cacheset.CacheSet).Empty(set)
  option one-section
  for C16 C21
  requires inv: csinv(set)
  returns lksize(set.table) == 0

func (*cacheset.CacheSet).Size(set)
  option one-section
  for C16 C21
  requires inv: csinv(set)
  returns lksize(set.table)

func (*cacheset.CacheSet).Clear(set)
  option one-section
  for C16 C21
  requires inv: csinv(set)
  modifies set.table
  ensures inv: csinv(set)
  ensures empty: lksize(set.table) == 0 and allkeys(lambda q: not lkhas(set.table, q))

# cachemap2: builtin map plus the insertion order of its keys
inline def c2inv(m): return nonnil(m) and nonnil(m.table) and nonnil(m.orderPos) and nonnil(m.ordering) and m.maxSize >= 1 and slsize(m.ordering) <= m.maxSize and length(m.table) == slsize(m.ordering) \
    and slall(m.ordering, lambda x: has(m.table, x)) and sldistinct(m.ordering) and forkeys(m.table, lambda q: slin(m.ordering, q))

func cachemap2.New(maxSize)
  option events-off
  for C16 C21
  requires bound: maxSize >= 1
  ensures inv: c2inv(result)
  ensures bound: result.maxSize == maxSize
  ensures empty: slsize(result.ordering) == 0

func (*cachemap2.CacheMap).Add(m, key, item)
  option one-section
  for C16 C21
  requires inv: c2inv(m)
  modifies mapof(m.table), mapof(m.orderPos), slist(m.ordering)
  ensures inv: c2inv(m)
  ensures stored: has(m.table, key)
  case existing:
    when has(m.table, key)
    ensures keys: anykey(m.table, lambda q: has(m.table, q) == old(has(m.table, q)) and m.table[q] == old(m.table[q]))
    ensures order: slsize(m.ordering) == old(slsize(m.ordering)) and forall(0, slsize(m.ordering), lambda i: slat(m.ordering, i) == old(slat(m.ordering, i)))
  case room:
    when not has(m.table, key) and slsize(m.ordering) < m.maxSize
    ensures value: m.table[key] == item
    ensures keys: anykey(m.table, lambda q: has(m.table, q) == (q == key or old(has(m.table, q))))
    ensures values: anykey(m.table, lambda q: implies(q != key, m.table[q] == old(m.table[q])))
    ensures order: slsize(m.ordering) == old(slsize(m.ordering)) + 1 and slat(m.ordering, slsize(m.ordering) - 1) == key and forall(0, slsize(m.ordering) - 1, lambda i: slat(m.ordering, i) == old(slat(m.ordering, i)))
  case full:
    when not has(m.table, key) and slsize(m.ordering) == m.maxSize
    ensures value: m.table[key] == item
    ensures keys: anykey(m.table, lambda q: has(m.table, q) == (q == key or old(has(m.table, q) and q != slat(m.ordering, 0))))
    ensures values: anykey(m.table, lambda q: implies(has(m.table, q) and q != key, m.table[q] == old(m.table[q])))
    ensures order: slsize(m.ordering) == old(slsize(m.ordering)) and slat(m.ordering, slsize(m.ordering) - 1) == key and forall(0, slsize(m.ordering) - 1, lambda i: slat(m.ordering, i) == old(slat(m.ordering, i + 1)))

func (*cachemap2.CacheMap).Contains(m, key)
  option one-section
  for C16 C21
  requires inv: c2inv(m)
  returns has(m.table, key)

func (*cachemap2.CacheMap).Get(m, key)
  option one-section
  for C16 C21
  requires inv: c2inv(m)
  ensures found: implies(has(m.table, key), result == m.table[key])
  ensures absent: implies(not has(m.table, key), result == nil)

func (*cachemap2.CacheMap).Empty(m)
  option one-section
  for C16 C21
  requires inv: c2inv(m)
  returns length(m.table) == 0

func (*cachemap2.CacheMap).Size(m)
  option one-section
  for C16 C21
  requires inv: c2inv(m)
  returns length(m.table)

func (*cachemap2.CacheMap).Remove(m, key)
  option one-section
  for C16 C21
  requires inv: c2inv(m)
  modifies mapof(m.table), mapof(m.orderPos), slist(m.ordering)
  ensures inv: c2inv(m)
  ensures keys: anykey(m.table, lambda q: has(m.table, q) == (q != key and old(has(m.table, q))))
  ensures values: anykey(m.table, lambda q: implies(q != key, m.table[q] == old(m.table[q])))
  ensures order: forall(0, slsize(m.ordering), lambda i: slat(m.ordering, i) == old(slat(m.ordering, i)) or slat(m.ordering, i) == old(slat(m.ordering, i + 1)))

func (*cachemap2.CacheMap).Clear(m)
  option one-section
  for C16 C21
  requires inv: c2inv(m)
  modifies m.table, m.orderPos, slist(m.ordering)
  ensures inv: c2inv(m)
  ensures empty: length(m.table) == 0 and slsize(m.ordering) == 0 and anykey(m.table, lambda q: not has(m.table, q))

func (*cachemap2.CacheMap).GetValues(m)
  option one-section
  for C16 C21
  requires inv: c2inv(m)
  requires values: forkeys(m.table, lambda q: m.table[q] != nil)
  invariant count: length(l) == k
  invariant listed: forall(0, k, lambda i: l[i] == m.table[enumkey(m.table, i)])
  ensures count: length(result) == length(m.table)
  ensures listed: forall(0, length(m.table), lambda i: result[i] == m.table[enumkey(m.table, i)])
