package memcache

// ---- completion channels: chsent(ch) values were ever sent on ch, chval(ch) is the last of them
check immutable "commandListData.ch"
ghost chsent(ref) int
ghost chval(ref) iface
ghost chown(ref) *commandListData

pred chain(c *commandListData) bool = nsib(c) >= 1 && sib(c)[0] == c && spos(c) == 0
  && (forall i {sib(c)[i]} :: 0 <= i && i < nsib(c) ==> waiting(c, i, sib(c)[i]) && sib(c)[i].ch != nil && chancap(sib(c)[i].ch) >= 1 && chown(sib(c)[i].ch) == sib(c)[i])

func (*commandListData).setCompleted(c, err)
  prop C11 C08
  requires @C11.C08 c.ch != nil && chsent(c.ch) == 0 && chancap(c.ch) >= 1
  modifies chsent(c.ch), chval(c.ch)
  ensures @C11.C08 chsent(c.ch) == 1 && chval(c.ch) == err

// a refused pipeline completes every one of its batches with the connection-closed error
func (*sender).publish(s, cmd)
  prop C08 C11 C14 C15
  requires cmd != nil && qbuf(cmd) == nil && chain(cmd)
  requires forall i {sib(cmd)[i]} :: 0 <= i && i < nsib(cmd) ==> chsent(sib(cmd)[i].ch) == 0
  stable qbuf(cmd) == nil
  modifies all commandListData.link where spos(a) == 0 && !(qbuf(a) == &s.sendBuf && qpos(a) < spop(&s.sendBuf)), all qbuf where qbuf(a) == nil, all qpos where qbuf(a) == nil, all chsent where shead(chown(a)) == cmd, all chval where shead(chown(a)) == cmd
  let c0 = cmd
  inv $cmd == nil || (shead($cmd) == c0 && 0 <= spos($cmd) && spos($cmd) < nsib(c0) && sib(c0)[spos($cmd)] == $cmd)
  inv forall i {sib(c0)[i]} :: 0 <= i && i < nsib(c0) ==> chsent(sib(c0)[i].ch) == ($cmd == nil || i < spos($cmd) ? 1 : 0)
  inv forall i {sib(c0)[i]} :: 0 <= i && i < nsib(c0) && ($cmd == nil || i < spos($cmd)) ==> chval(sib(c0)[i].ch) == ErrConnClosed
  ensures @C08.C11 qbuf(c0) == &s.sendBuf && (forall i {sib(c0)[i]} :: 0 <= i && i < nsib(c0) ==> chsent(sib(c0)[i].ch) == 0)
     || s.sendBuf.closed && (forall i {sib(c0)[i]} :: 0 <= i && i < nsib(c0) ==> chsent(sib(c0)[i].ch) == 1 && chval(sib(c0)[i].ch) == ErrConnClosed)
