package memcache

// ---- the submission queue: sq(b)[k] is the k-th pipeline ever accepted; spop of them have been drained

ghost sq(*sendBuffer) [int]*commandListData
ghost sacc(*sendBuffer) int
ghost spop(*sendBuffer) int
ghost qbuf(*commandListData) *sendBuffer
ghost qpos(*commandListData) int

// the batches of a pipeline: sib(c)[0] = c, sib(c)[1], ..., sib(c)[nsib(c)-1]
ghost nsib(*commandListData) int
ghost sib(*commandListData) [int]*commandListData
ghost shead(*commandListData) *commandListData
ghost spos(*commandListData) int
// a batch x that is the i-th of its pipeline c and was not handed to the writer yet
pred waiting(c *commandListData, i int, x *commandListData) bool = x != nil && shead(x) == c && spos(x) == i
  && x.sibling == (i + 1 < nsib(c) ? sib(c)[i+1] : nil) && (i > 0 ==> x.link == nil) && 0 <= x.cmdCount && x.cmdCount <= 1073741824

monitor sendq(b *sendBuffer).mut
  protects firstCmd nextCmdPtr closed
  role drainer: spop
  havoc sq(b)
  havoc sacc(b)
  havoc spop(b)
  havoc all commandListData.link where spos(a) == 0 && !(qbuf(a) == b && qpos(a) < spop(b))
  havoc all qbuf where qbuf(a) == nil
  havoc all qpos where qbuf(a) == nil
  invariant @C08 0 <= spop(b) && spop(b) <= sacc(b)
  invariant @C08 forall k {sq(b)[k]} :: 0 <= k && k < sacc(b) ==> sq(b)[k] != nil && qbuf(sq(b)[k]) == b && qpos(sq(b)[k]) == k
  invariant @C08 forall k {sq(b)[k].link} :: spop(b) <= k && k < sacc(b) ==> sq(b)[k].link == (k + 1 < sacc(b) ? sq(b)[k+1] : nil)
  invariant @C08.C09 forall k {sq(b)[k]} :: spop(b) <= k && k < sacc(b) ==> nsib(sq(b)[k]) >= 1 && sib(sq(b)[k])[0] == sq(b)[k] && spos(sq(b)[k]) == 0
  invariant @C08.C09 forall k, i {sib(sq(b)[k])[i]} :: spop(b) <= k && k < sacc(b) && 0 <= i && i < nsib(sq(b)[k]) ==> waiting(sq(b)[k], i, sib(sq(b)[k])[i])
  invariant @C08 b.firstCmd == (spop(b) < sacc(b) ? sq(b)[spop(b)] : nil)
  invariant @C08 b.nextCmdPtr == (spop(b) < sacc(b) ? &sq(b)[sacc(b)-1].link : &b.firstCmd)
  transition @C08 old(sacc(b)) <= sacc(b) && old(spop(b)) <= spop(b)
  transition @C08 forall k {sq(b)[k]} :: 0 <= k && k < old(sacc(b)) ==> sq(b)[k] == old(sq(b))[k]
  transition @C08 old(b.closed) ==> b.closed && sacc(b) == old(sacc(b))
  atrelease spop(b) := sacc(b) if b.firstCmd == nil
  cond cond: !b.closed && b.firstCmd == nil

func (*sendBuffer).push(b, cmd)(closed)
  prop C08 C14 C15
  requires cmd != nil && qbuf(cmd) == nil && nsib(cmd) >= 1 && sib(cmd)[0] == cmd && spos(cmd) == 0
  requires forall i {sib(cmd)[i]} :: 0 <= i && i < nsib(cmd) ==> waiting(cmd, i, sib(cmd)[i])
  stable qbuf(cmd) == nil
  modifies all commandListData.link where spos(a) == 0 && !(qbuf(a) == b && qpos(a) < spop(b)), all qbuf where qbuf(a) == nil, all qpos where qbuf(a) == nil
  atrelease sq(b)[sacc(b)] := cmd if b.nextCmdPtr == &cmd.link
  atrelease qbuf(cmd) := b if b.nextCmdPtr == &cmd.link
  atrelease qpos(cmd) := sacc(b) if b.nextCmdPtr == &cmd.link
  atrelease sacc(b) := sacc(b) + 1 if b.nextCmdPtr == &cmd.link
  ensures @C08 closed ==> qbuf(cmd) == nil && b.closed
  ensures @C08 !closed ==> qbuf(cmd) == b

func (*sendBuffer).popAll(b, waiting)(cmdList, closed)
  prop C08 C14 C15 C09
  flag role=drainer
  requires 0 <= spop(b) && spop(b) <= sacc(b)
  modifies sacc(b), spop(b), sq(b), all commandListData.link where spos(a) == 0 && !(qbuf(a) == b && qpos(a) < spop(b)), all qbuf where qbuf(a) == nil, all qpos where qbuf(a) == nil
  ensures @C08.C09 spop(b) >= old(spop(b)) && spop(b) <= sacc(b) && cmdList == (old(spop(b)) < spop(b) ? sq(b)[old(spop(b))] : nil)
  ensures @C08.C09 forall k {sq(b)[k]} :: old(spop(b)) <= k && k < spop(b) ==> sq(b)[k] != nil && qbuf(sq(b)[k]) == b && qpos(sq(b)[k]) == k
  ensures @C08.C09 forall k {sq(b)[k].link} :: old(spop(b)) <= k && k < spop(b) ==> sq(b)[k].link == (k + 1 < spop(b) ? sq(b)[k+1] : nil)
  ensures @C08.C09 forall k {sq(b)[k]} :: old(spop(b)) <= k && k < spop(b) ==> nsib(sq(b)[k]) >= 1 && sib(sq(b)[k])[0] == sq(b)[k] && spos(sq(b)[k]) == 0
  ensures @C08.C09 forall k, i {sib(sq(b)[k])[i]} :: old(spop(b)) <= k && k < spop(b) && 0 <= i && i < nsib(sq(b)[k]) ==> waiting(sq(b)[k], i, sib(sq(b)[k])[i])
  ensures @C08.C09 forall k {sq(b)[k]} :: 0 <= k && k < old(spop(b)) ==> sq(b)[k] == old(sq(b))[k]
  ensures @C08.C09 closed ==> b.closed && sacc(b) == spop(b)
  ensures @C08.C14.C09 waiting ==> closed || cmdList != nil

func (*sendBuffer).close(b)
  prop C08 C14 C15
  modifies all commandListData.link where spos(a) == 0 && !(qbuf(a) == b && qpos(a) < spop(b)), all qbuf where qbuf(a) == nil, all qpos where qbuf(a) == nil
  ensures @C08.C11 b.closed
