// Concat: every argument, in order, whole
func util.Concat(ss) (r)
  loop i int, b *strings.Builder :: len(bytes(b)) == sumof(k, i + 1, len(ss[k]))
  loop i int, b *strings.Builder :: len(bytes(b)) == sumof(k, i, len(ss[k]))
  loop i int, b *strings.Builder :: forall j int :: 0 <= j && j <= i ==> sumof(k, j + 1, len(ss[k])) <= len(bytes(b)) && sumof(k, j, len(ss[k])) >= 0
  loop i int, b *strings.Builder :: forall j int :: 0 <= j && j < i ==> sumof(k, j + 1, len(ss[k])) <= len(bytes(b)) && sumof(k, j, len(ss[k])) >= 0
  loop i int, b *strings.Builder :: forall j, p int :: 0 <= j && j <= i && 0 <= p && p < len(ss[j]) ==> bytes(b)[sumof(k, j, len(ss[k])) + p] == ss[j][p]
  loop i int, b *strings.Builder :: forall j, p int :: 0 <= j && j < i && 0 <= p && p < len(ss[j]) ==> bytes(b)[sumof(k, j, len(ss[k])) + p] == ss[j][p]
  ensures len: len(r) == sumof(k, len(ss), len(ss[k]))
  ensures content: forall j, p int :: 0 <= j && j < len(ss) && 0 <= p && p < len(ss[j]) ==> r[sumof(k, j, len(ss[k])) + p] == ss[j][p]
