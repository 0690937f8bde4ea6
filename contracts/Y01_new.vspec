unit Y01
title a new directory of a synthetic file system is empty and its own
packages vroot/synthfs
include std
extern list.New() (l)
  ensures l != nil && fresh(l)
func synthfs.newDir(name, mode, t, parent) (d)
  ensures [fields] d != nil && fresh(d) && d.parent == parent && d.metadata.name == name
  ensures [own] d.index != nil && d.ordered != nil && fresh(d.index) && fresh(d.ordered)
  ensures [empty] forall n string :: {dom(d.index)[n]} !has(d.index, n)
