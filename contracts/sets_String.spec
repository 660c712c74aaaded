// generated by tools/gensets.py
package sigs.k8s.io/instrumentation-tools/notstdlib/sets

func NewString(items) (r)
  props C01 C02
  ensures r != nil && fresh(r)
  ensures forall k string {k in r} :: (k in r) <==> initemsString(items, len(items), k)

pred initemsString(items []string, n int, k string) bool := exists j int {items[j]} :: 0 <= j && j < n && items[j] == k

func (s String) Insert(items) (r)
  props C01
  requires len(items) > 0 ==> s != nil
  modifies mapof(s)
  ensures r == s
  ensures forall k string {k in s} :: (k in s) <==> (k in old(dom(s)) || initemsString(items, len(items), k))
  ensures forall k string {k in s} {k in old(dom(s))} :: (k in old(dom(s))) ==> (k in s)
  ensures len(items) == 1 ==> dom(s) == old(dom(s))[items[0] := true]
  loop 1
    invariant forall k string {k in s} :: (k in s) <==> (k in old(dom(s)) || initemsString(items, $i, k))
    invariant $i == 0 ==> dom(s) == old(dom(s))
    invariant $i == 1 ==> dom(s) == old(dom(s))[items[0] := true]

func (s String) Delete(items) (r)
  props C01
  modifies mapof(s)
  ensures r == s
  ensures forall k string {k in s} :: (k in s) <==> (k in old(dom(s)) && !initemsString(items, len(items), k))
  ensures len(items) == 1 ==> dom(s) == old(dom(s))[items[0] := false]
  loop 1
    invariant forall k string {k in s} :: (k in s) <==> (k in old(dom(s)) && !initemsString(items, $i, k))
    invariant $i == 0 ==> dom(s) == old(dom(s))
    invariant $i == 1 ==> dom(s) == old(dom(s))[items[0] := false]

func (s String) Has(item) (r)
  props C01
  ensures r <==> (item in s)

func (s String) HasAll(items) (r)
  props C01
  ensures r <==> (forall j int {items[j]} :: 0 <= j && j < len(items) ==> (items[j] in s))
  loop 1
    invariant forall j int {items[j]} :: 0 <= j && j < $i ==> (items[j] in s)

func (s String) HasAny(items) (r)
  props C01
  ensures r <==> (exists j int {items[j]} :: 0 <= j && j < len(items) && (items[j] in s))
  loop 1
    invariant forall j int {items[j]} :: 0 <= j && j < $i ==> !(items[j] in s)

func (s String) Difference(s2) (r)
  props C01
  ensures r != nil && fresh(r)
  ensures forall k string {k in r} :: (k in r) <==> ((k in s) && !(k in s2))
  loop 1
    invariant forall k string {k in result} :: (k in result) <==> ((k in visited) && (k in s) && !(k in s2))
    invariant forall k string {k in visited} :: (k in visited) ==> (k in s)
    invariant result != nil && fresh(result)

func (s1 String) Union(s2) (r)
  props C01
  ensures r != nil && fresh(r)
  ensures forall k string {k in r} :: (k in r) <==> ((k in s1) || (k in s2))
  loop 1
    invariant forall k string {k in result} {k in visited} :: (k in result) <==> (k in visited)
    invariant forall k string {k in visited} :: (k in visited) ==> (k in s1)
    invariant result != nil && fresh(result)
  loop 2
    invariant forall k string {k in result} {k in visited} :: (k in result) <==> ((k in visited) || (k in s1))
    invariant forall k string {k in visited} :: (k in visited) ==> (k in s2)
    invariant result != nil && fresh(result)

func (s1 String) Intersection(s2) (r)
  props C01
  ensures r != nil && fresh(r)
  ensures forall k string {k in r} :: (k in r) <==> ((k in s1) && (k in s2))
  loop 1
    invariant forall k string {k in result} {k in visited} :: (k in result) <==> ((k in visited) && (k in other))
    invariant forall k string {k in visited} :: (k in visited) ==> (k in walk)
    invariant result != nil && fresh(result)

func (s1 String) IsSuperset(s2) (r)
  props C01
  ensures r <==> (forall k string {k in s1} {k in s2} :: (k in s2) ==> (k in s1))
  loop 1
    invariant forall k string {k in visited} :: (k in visited) ==> (k in s1)

func (s1 String) Equal(s2) (r)
  props C01
  ensures r <==> dom(s1) == dom(s2)

func (s String) Len() (r)
  props C01 C02
  ensures r == len(s)

func (s String) PopAny() (v, ok)
  props C02
  modifies mapof(s)
  ensures ok <==> old(len(s)) > 0
  ensures ok ==> (v in old(dom(s))) && dom(s) == old(dom(s))[v := false]
  ensures !ok ==> v == zero(string) && dom(s) == old(dom(s))
  loop 1
    invariant dom(s) == old(dom(s))
    invariant visited == emptyset(string)

// every element exactly once: a bijection between positions and members
pred listsString(r []string, d set[string]) bool := (forall j int {r[j]} :: 0 <= j && j < len(r) ==> (r[j] in d))
  && (forall k string {k in d} :: (k in d) ==> initemsString(r, len(r), k))
  && (forall i int, j int {r[i], r[j]} :: 0 <= i && i < j && j < len(r) ==> r[i] != r[j])

func (s String) UnsortedList() (r)
  props C02
  ensures listsString(r, dom(s))
  ensures len(r) == len(s)
  ensures r != nil && fresh(r)
  loop 1
    assert forall j int {res[j]} {it(res[j])} :: 0 <= j && j < it(len(res)) ==> res[j] == it(res[j])
    assert len(res) == it(len(res)) + 1
    assert forall k string {k in visited} :: (k in visited) ==> it(k in visited) || k == res[it(len(res))]
    assert forall k string {k in visited} :: it(k in visited) ==> initemsString(res, len(res), k)
    assert res[it(len(res))] in visited
    assert forall k string {k in visited} :: k == res[it(len(res))] ==> !it(k in visited)
    assert forall j int {res[j]} :: 0 <= j && j < it(len(res)) ==> res[j] != res[it(len(res))]
    assert forall k string {k in visited} :: (k in visited) ==> initemsString(res, len(res), k)
    invariant listsString(res, visited)
    invariant len(res) == len(visited) && fresh(res)
    invariant forall k string {k in visited} :: (k in visited) ==> (k in s)

func (s String) List() (r)
  props C02
  ensures listsString(r, dom(s))
  ensures len(r) == len(s)
  ensures r != nil && fresh(r)
  ensures forall i int, j int {r[i], r[j]} :: 0 <= i && i < j && j < len(r) ==> r[i] < r[j]
  loop 1
    assert forall j int {res[j]} {it(res[j])} :: 0 <= j && j < it(len(res)) ==> res[j] == it(res[j])
    assert len(res) == it(len(res)) + 1
    assert forall k string {k in visited} :: (k in visited) ==> it(k in visited) || k == res[it(len(res))]
    assert forall k string {k in visited} :: it(k in visited) ==> initemsString(res, len(res), k)
    assert res[it(len(res))] in visited
    assert forall k string {k in visited} :: k == res[it(len(res))] ==> !it(k in visited)
    assert forall j int {res[j]} :: 0 <= j && j < it(len(res)) ==> res[j] != res[it(len(res))]
    assert forall k string {k in visited} :: (k in visited) ==> initemsString(res, len(res), k)
    invariant listsString(res, visited)
    invariant len(res) == len(visited) && fresh(res)
    invariant forall k string {k in visited} :: (k in visited) ==> (k in s)
