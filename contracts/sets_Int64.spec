// generated by tools/gensets.py
package sigs.k8s.io/instrumentation-tools/notstdlib/sets

func NewInt64(items) (r)
  props C01 C02
  ensures r != nil && fresh(r)
  ensures forall k int64 {k in r} :: (k in r) <==> initemsInt64(items, len(items), k)

pred initemsInt64(items []int64, n int, k int64) bool := exists j int {items[j]} :: 0 <= j && j < n && items[j] == k

func (s Int64) Insert(items) (r)
  props C01
  requires len(items) > 0 ==> s != nil
  modifies mapof(s)
  ensures r == s
  ensures forall k int64 {k in s} :: (k in s) <==> (k in old(dom(s)) || initemsInt64(items, len(items), k))
  ensures forall k int64 {k in s} {k in old(dom(s))} :: (k in old(dom(s))) ==> (k in s)
  ensures len(items) == 1 ==> dom(s) == old(dom(s))[items[0] := true]
  loop 1
    invariant forall k int64 {k in s} :: (k in s) <==> (k in old(dom(s)) || initemsInt64(items, $i, k))
    invariant $i == 0 ==> dom(s) == old(dom(s))
    invariant $i == 1 ==> dom(s) == old(dom(s))[items[0] := true]

func (s Int64) Delete(items) (r)
  props C01
  modifies mapof(s)
  ensures r == s
  ensures forall k int64 {k in s} :: (k in s) <==> (k in old(dom(s)) && !initemsInt64(items, len(items), k))
  ensures len(items) == 1 ==> dom(s) == old(dom(s))[items[0] := false]
  loop 1
    invariant forall k int64 {k in s} :: (k in s) <==> (k in old(dom(s)) && !initemsInt64(items, $i, k))
    invariant $i == 0 ==> dom(s) == old(dom(s))
    invariant $i == 1 ==> dom(s) == old(dom(s))[items[0] := false]

func (s Int64) Has(item) (r)
  props C01
  ensures r <==> (item in s)

func (s Int64) HasAll(items) (r)
  props C01
  ensures r <==> (forall j int {items[j]} :: 0 <= j && j < len(items) ==> (items[j] in s))
  loop 1
    invariant forall j int {items[j]} :: 0 <= j && j < $i ==> (items[j] in s)

func (s Int64) HasAny(items) (r)
  props C01
  ensures r <==> (exists j int {items[j]} :: 0 <= j && j < len(items) && (items[j] in s))
  loop 1
    invariant forall j int {items[j]} :: 0 <= j && j < $i ==> !(items[j] in s)

func (s Int64) Difference(s2) (r)
  props C01
  ensures r != nil && fresh(r)
  ensures forall k int64 {k in r} :: (k in r) <==> ((k in s) && !(k in s2))
  loop 1
    invariant forall k int64 {k in result} :: (k in result) <==> ((k in visited) && (k in s) && !(k in s2))
    invariant forall k int64 {k in visited} :: (k in visited) ==> (k in s)
    invariant result != nil && fresh(result)

func (s1 Int64) Union(s2) (r)
  props C01
  ensures r != nil && fresh(r)
  ensures forall k int64 {k in r} :: (k in r) <==> ((k in s1) || (k in s2))
  loop 1
    invariant forall k int64 {k in result} {k in visited} :: (k in result) <==> (k in visited)
    invariant forall k int64 {k in visited} :: (k in visited) ==> (k in s1)
    invariant result != nil && fresh(result)
  loop 2
    invariant forall k int64 {k in result} {k in visited} :: (k in result) <==> ((k in visited) || (k in s1))
    invariant forall k int64 {k in visited} :: (k in visited) ==> (k in s2)
    invariant result != nil && fresh(result)

func (s1 Int64) Intersection(s2) (r)
  props C01
  ensures r != nil && fresh(r)
  ensures forall k int64 {k in r} :: (k in r) <==> ((k in s1) && (k in s2))
  loop 1
    invariant forall k int64 {k in result} {k in visited} :: (k in result) <==> ((k in visited) && (k in other))
    invariant forall k int64 {k in visited} :: (k in visited) ==> (k in walk)
    invariant result != nil && fresh(result)

func (s1 Int64) IsSuperset(s2) (r)
  props C01
  ensures r <==> (forall k int64 {k in s1} {k in s2} :: (k in s2) ==> (k in s1))
  loop 1
    invariant forall k int64 {k in visited} :: (k in visited) ==> (k in s1)

func (s1 Int64) Equal(s2) (r)
  props C01
  ensures r <==> dom(s1) == dom(s2)

func (s Int64) Len() (r)
  props C01 C02
  ensures r == len(s)

func (s Int64) PopAny() (v, ok)
  props C02
  modifies mapof(s)
  ensures ok <==> old(len(s)) > 0
  ensures ok ==> (v in old(dom(s))) && dom(s) == old(dom(s))[v := false]
  ensures !ok ==> v == zero(int64) && dom(s) == old(dom(s))
  loop 1
    invariant dom(s) == old(dom(s))
    invariant visited == emptyset(int64)

// every element exactly once: a bijection between positions and members
pred listsInt64(r []int64, d set[int64]) bool := (forall j int {r[j]} :: 0 <= j && j < len(r) ==> (r[j] in d))
  && (forall k int64 {k in d} :: (k in d) ==> initemsInt64(r, len(r), k))
  && (forall i int, j int {r[i], r[j]} :: 0 <= i && i < j && j < len(r) ==> r[i] != r[j])

func (s Int64) UnsortedList() (r)
  props C02
  ensures listsInt64(r, dom(s))
  ensures len(r) == len(s)
  ensures r != nil && fresh(r)
  loop 1
    assert forall j int {res[j]} {it(res[j])} :: 0 <= j && j < it(len(res)) ==> res[j] == it(res[j])
    assert len(res) == it(len(res)) + 1
    assert forall k int64 {k in visited} :: (k in visited) ==> it(k in visited) || k == res[it(len(res))]
    assert forall k int64 {k in visited} :: it(k in visited) ==> initemsInt64(res, len(res), k)
    assert res[it(len(res))] in visited
    assert forall k int64 {k in visited} :: k == res[it(len(res))] ==> !it(k in visited)
    assert forall j int {res[j]} :: 0 <= j && j < it(len(res)) ==> res[j] != res[it(len(res))]
    assert forall k int64 {k in visited} :: (k in visited) ==> initemsInt64(res, len(res), k)
    invariant listsInt64(res, visited)
    invariant len(res) == len(visited) && fresh(res)
    invariant forall k int64 {k in visited} :: (k in visited) ==> (k in s)

func (s Int64) List() (r)
  props C02
  ensures listsInt64(r, dom(s))
  ensures len(r) == len(s)
  ensures r != nil && fresh(r)
  ensures forall i int, j int {r[i], r[j]} :: 0 <= i && i < j && j < len(r) ==> r[i] < r[j]
  loop 1
    assert forall j int {res[j]} {it(res[j])} :: 0 <= j && j < it(len(res)) ==> res[j] == it(res[j])
    assert len(res) == it(len(res)) + 1
    assert forall k int64 {k in visited} :: (k in visited) ==> it(k in visited) || k == res[it(len(res))]
    assert forall k int64 {k in visited} :: it(k in visited) ==> initemsInt64(res, len(res), k)
    assert res[it(len(res))] in visited
    assert forall k int64 {k in visited} :: k == res[it(len(res))] ==> !it(k in visited)
    assert forall j int {res[j]} :: 0 <= j && j < it(len(res)) ==> res[j] != res[it(len(res))]
    assert forall k int64 {k in visited} :: (k in visited) ==> initemsInt64(res, len(res), k)
    invariant listsInt64(res, visited)
    invariant len(res) == len(visited) && fresh(res)
    invariant forall k int64 {k in visited} :: (k in visited) ==> (k in s)
