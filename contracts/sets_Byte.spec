// generated by tools/gensets.py
package sigs.k8s.io/instrumentation-tools/notstdlib/sets

func NewByte(items) (r)
  props C01 C02
  ensures r != nil && fresh(r)
  ensures forall k byte {k in r} :: (k in r) <==> initemsByte(items, len(items), k)

pred initemsByte(items []byte, n int, k byte) bool := exists j int {items[j]} :: 0 <= j && j < n && items[j] == k

func (s Byte) Insert(items) (r)
  props C01
  requires len(items) > 0 ==> s != nil
  modifies mapof(s)
  ensures r == s
  ensures forall k byte {k in s} :: (k in s) <==> (k in old(dom(s)) || initemsByte(items, len(items), k))
  ensures forall k byte {k in s} {k in old(dom(s))} :: (k in old(dom(s))) ==> (k in s)
  ensures len(items) == 1 ==> dom(s) == old(dom(s))[items[0] := true]
  loop 1
    invariant forall k byte {k in s} :: (k in s) <==> (k in old(dom(s)) || initemsByte(items, $i, k))
    invariant $i == 0 ==> dom(s) == old(dom(s))
    invariant $i == 1 ==> dom(s) == old(dom(s))[items[0] := true]

func (s Byte) Delete(items) (r)
  props C01
  modifies mapof(s)
  ensures r == s
  ensures forall k byte {k in s} :: (k in s) <==> (k in old(dom(s)) && !initemsByte(items, len(items), k))
  ensures len(items) == 1 ==> dom(s) == old(dom(s))[items[0] := false]
  loop 1
    invariant forall k byte {k in s} :: (k in s) <==> (k in old(dom(s)) && !initemsByte(items, $i, k))
    invariant $i == 0 ==> dom(s) == old(dom(s))
    invariant $i == 1 ==> dom(s) == old(dom(s))[items[0] := false]

func (s Byte) Has(item) (r)
  props C01
  ensures r <==> (item in s)

func (s Byte) HasAll(items) (r)
  props C01
  ensures r <==> (forall j int {items[j]} :: 0 <= j && j < len(items) ==> (items[j] in s))
  loop 1
    invariant forall j int {items[j]} :: 0 <= j && j < $i ==> (items[j] in s)

func (s Byte) HasAny(items) (r)
  props C01
  ensures r <==> (exists j int {items[j]} :: 0 <= j && j < len(items) && (items[j] in s))
  loop 1
    invariant forall j int {items[j]} :: 0 <= j && j < $i ==> !(items[j] in s)

func (s Byte) Difference(s2) (r)
  props C01
  ensures r != nil && fresh(r)
  ensures forall k byte {k in r} :: (k in r) <==> ((k in s) && !(k in s2))
  loop 1
    invariant forall k byte {k in result} :: (k in result) <==> ((k in visited) && (k in s) && !(k in s2))
    invariant forall k byte {k in visited} :: (k in visited) ==> (k in s)
    invariant result != nil && fresh(result)

func (s1 Byte) Union(s2) (r)
  props C01
  ensures r != nil && fresh(r)
  ensures forall k byte {k in r} :: (k in r) <==> ((k in s1) || (k in s2))
  loop 1
    invariant forall k byte {k in result} {k in visited} :: (k in result) <==> (k in visited)
    invariant forall k byte {k in visited} :: (k in visited) ==> (k in s1)
    invariant result != nil && fresh(result)
  loop 2
    invariant forall k byte {k in result} {k in visited} :: (k in result) <==> ((k in visited) || (k in s1))
    invariant forall k byte {k in visited} :: (k in visited) ==> (k in s2)
    invariant result != nil && fresh(result)

func (s1 Byte) Intersection(s2) (r)
  props C01
  ensures r != nil && fresh(r)
  ensures forall k byte {k in r} :: (k in r) <==> ((k in s1) && (k in s2))
  loop 1
    invariant forall k byte {k in result} {k in visited} :: (k in result) <==> ((k in visited) && (k in other))
    invariant forall k byte {k in visited} :: (k in visited) ==> (k in walk)
    invariant result != nil && fresh(result)

func (s1 Byte) IsSuperset(s2) (r)
  props C01
  ensures r <==> (forall k byte {k in s1} {k in s2} :: (k in s2) ==> (k in s1))
  loop 1
    invariant forall k byte {k in visited} :: (k in visited) ==> (k in s1)

func (s1 Byte) Equal(s2) (r)
  props C01
  ensures r <==> dom(s1) == dom(s2)

func (s Byte) Len() (r)
  props C01 C02
  ensures r == len(s)

func (s Byte) PopAny() (v, ok)
  props C02
  modifies mapof(s)
  ensures ok <==> old(len(s)) > 0
  ensures ok ==> (v in old(dom(s))) && dom(s) == old(dom(s))[v := false]
  ensures !ok ==> v == zero(byte) && dom(s) == old(dom(s))
  loop 1
    invariant dom(s) == old(dom(s))
    invariant visited == emptyset(byte)

// every element exactly once: a bijection between positions and members
pred listsByte(r []byte, d set[byte]) bool := (forall j int {r[j]} :: 0 <= j && j < len(r) ==> (r[j] in d))
  && (forall k byte {k in d} :: (k in d) ==> initemsByte(r, len(r), k))
  && (forall i int, j int {r[i], r[j]} :: 0 <= i && i < j && j < len(r) ==> r[i] != r[j])

func (s Byte) UnsortedList() (r)
  props C02
  ensures listsByte(r, dom(s))
  ensures len(r) == len(s)
  ensures r != nil && fresh(r)
  loop 1
    assert forall j int {res[j]} {it(res[j])} :: 0 <= j && j < it(len(res)) ==> res[j] == it(res[j])
    assert len(res) == it(len(res)) + 1
    assert forall k byte {k in visited} :: (k in visited) ==> it(k in visited) || k == res[it(len(res))]
    assert forall k byte {k in visited} :: it(k in visited) ==> initemsByte(res, len(res), k)
    assert res[it(len(res))] in visited
    assert forall k byte {k in visited} :: k == res[it(len(res))] ==> !it(k in visited)
    assert forall j int {res[j]} :: 0 <= j && j < it(len(res)) ==> res[j] != res[it(len(res))]
    assert forall k byte {k in visited} :: (k in visited) ==> initemsByte(res, len(res), k)
    invariant listsByte(res, visited)
    invariant len(res) == len(visited) && fresh(res)
    invariant forall k byte {k in visited} :: (k in visited) ==> (k in s)

func (s Byte) List() (r)
  props C02
  ensures listsByte(r, dom(s))
  ensures len(r) == len(s)
  ensures r != nil && fresh(r)
  ensures forall i int, j int {r[i], r[j]} :: 0 <= i && i < j && j < len(r) ==> r[i] < r[j]
  loop 1
    assert forall j int {res[j]} {it(res[j])} :: 0 <= j && j < it(len(res)) ==> res[j] == it(res[j])
    assert len(res) == it(len(res)) + 1
    assert forall k byte {k in visited} :: (k in visited) ==> it(k in visited) || k == res[it(len(res))]
    assert forall k byte {k in visited} :: it(k in visited) ==> initemsByte(res, len(res), k)
    assert res[it(len(res))] in visited
    assert forall k byte {k in visited} :: k == res[it(len(res))] ==> !it(k in visited)
    assert forall j int {res[j]} :: 0 <= j && j < it(len(res)) ==> res[j] != res[it(len(res))]
    assert forall k byte {k in visited} :: (k in visited) ==> initemsByte(res, len(res), k)
    invariant listsByte(res, visited)
    invariant len(res) == len(visited) && fresh(res)
    invariant forall k byte {k in visited} :: (k in visited) ==> (k in s)
