package github.com/prometheus/prometheus/pkg/labels
import labels github.com/prometheus/prometheus/pkg/labels

// the identity of a label set: equal for two label lists exactly when they have equal content
function lid(a seq[labels.Label], n mathint) mathint
axiom lid_def(a seq[labels.Label], n mathint, b seq[labels.Label], m mathint)
  trigger lid(a, n), lid(b, m)
  ensures n >= 0 && m >= 0 ==> ((lid(a, n) == lid(b, m)) <==> (n == m && (forall i int {a[i]} {b[i]} :: 0 <= i && i < n ==> a[i] == b[i])))
function lhash(l mathint) uint64

pred lset(l labels.Labels) mathint := lid(elems(l), len(l))

extern func (ls labels.Labels) Hash() (r)
  trusted "dependency: the hash depends on the content of the label set only"
  ensures r == lhash(lset(ls))

extern func labels.Equal(ls, o) (r)
  trusted "dependency: equality of content"
  ensures r <==> (lset(ls) == lset(o))
