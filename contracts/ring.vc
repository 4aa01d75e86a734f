package memcache

// ---- the queue of sent batches: hist(b)[k] is the k-th batch ever written, counted from the start of the connection

ghost hist(*recvBuffer) [int]*commandListData
// rpos(c): c is the rpos-th batch that the scheduler emitted
ghost rpos(*commandListData) int
// a batch that was written (or would have been, had its connection not failed) and is not completed yet
pred pending(c *commandListData) bool = c != nil && 0 <= c.cmdCount && c.cmdCount <= 1073741824 && c.ch != nil && chancap(c.ch) >= 1 && chown(c.ch) == c && chsent(c.ch) == 0
pred handed(c *commandListData, s *sender) bool = pending(c) && c.conn != nil && c.conn.sender == s

check immutable "recvBuffer.buf"
check immutable "recvBuffer.mask"
typeinv recvBuffer(b): len(b.buf) <= 1073741824 && ispow2(len(b.buf)) && b.mask == len(b.buf) - 1

monitor ring(b *recvBuffer).mut
  protects begin end closed
  role producer: end hist
  role consumer: begin
  havoc hist(b)
  havoc content(b.buf)
  invariant @C07 b.begin <= b.end && b.end - b.begin <= len(b.buf)
  invariant @C07 forall k {hist(b)[k]} :: b.begin <= k && k < b.end ==> b.buf[rmod(k, len(b.buf))] == hist(b)[k] && hist(b)[k] != nil
  invariant @C11 forall k {hist(b)[k]} :: b.begin <= k && k < b.end ==> handed(hist(b)[k], owner("sender.recv", b)) && rpos(hist(b)[k]) == k
  invariant @assume b.end < 4611686018427387904
  transition @C07 old(b.begin) <= b.begin && old(b.end) <= b.end
  transition @C07 forall k {hist(b)[k]} :: k < old(b.end) ==> hist(b)[k] == old(hist(b))[k]
  transition @C07 old(b.closed) ==> b.closed
  transition @C11 old(b.closed) ==> b.end == old(b.end)
  atrelease hist(b)[k] := b.buf[rmod(k, len(b.buf))] forall k if old(b.end) <= k && k < b.end
  cond sendCond: !b.closed && b.begin + len(b.buf) <= b.end
  cond recvCond: !b.closed && b.begin == b.end

func (*recvBuffer).push(b, cmdList)(remaining, isClosed)
  prop C07 C14 C15 C11
  requires forall i :: 0 <= i && i < len(cmdList) ==> cmdList[i] != nil
  requires @C11 forall i :: 0 <= i && i < len(cmdList) ==> handed(cmdList[i], owner("sender.recv", b)) && rpos(cmdList[i]) == b.end + i
  requires arr(cmdList) != arr(b.buf)
  flag role=producer
  modifies b.end, hist(b)
  inv b.end == old(b.end) + (len(cmdList) - len($cmdList)) && off($cmdList) == off(cmdList) + (len(cmdList) - len($cmdList)) && arr($cmdList) == arr(cmdList) && len($cmdList) <= len(cmdList)
  inv forall i {hist(b)[i]} :: old(b.end) <= i && i < b.end ==> hist(b)[i] == old(seq(cmdList))[i - old(b.end)]
  // copying into the free slots
  inv forall k {rmod(k, len(b.buf))} :: b.end <= k && k < b.end + $k ==> b.buf[rmod(k, len(b.buf))] == $cmdList[k - b.end]
  inv forall k {hist(b)[k]} :: b.begin <= k && k < b.end ==> b.buf[rmod(k, len(b.buf))] == hist(b)[k] && hist(b)[k] != nil
  ensures @C07.C11 isClosed || len(remaining) == 0
  ensures @C07.C11 len(remaining) <= len(cmdList) && b.end == old(b.end) + len(cmdList) - len(remaining)
  ensures @C07.C11 forall i {hist(b)[i]} :: old(b.end) <= i && i < b.end ==> hist(b)[i] == old(seq(cmdList))[i - old(b.end)]

func (*recvBuffer).read(b, cmdList)(r)
  prop C07 C14 C15 C11
  requires len(cmdList) >= 1 && arr(cmdList) != arr(b.buf) && b.begin <= b.end
  flag role=consumer
  modifies b.begin, content(cmdList), hist(b)
  let base = b.begin
  inv forall i :: 0 <= i && i < $i ==> cmdList[i] == hist(b)[b.begin + i] && hist(b)[b.begin + i] != nil
  inv forall k {hist(b)[k]} :: b.begin + $i <= k && k < b.end ==> b.buf[rmod(k, len(b.buf))] == hist(b)[k] && hist(b)[k] != nil
  ensures @C07.C11 0 <= r && r <= len(cmdList) && b.begin == old(b.begin) + r
  ensures @C07.C11 b.begin <= b.end
  ensures @C07.C11 forall i :: 0 <= i && i < r ==> cmdList[i] == hist(b)[old(b.begin) + i] && cmdList[i] != nil
  ensures @C11 forall i :: 0 <= i && i < r ==> handed(cmdList[i], owner("sender.recv", b)) && rpos(cmdList[i]) == old(b.begin) + i
  ensures @C11 r == 0 ==> b.closed && b.begin == b.end
  ensures @C07.C11 forall k {hist(b)[k]} :: k < old(b.begin) ==> hist(b)[k] == old(hist(b))[k]

func (*recvBuffer).closeBuffer(b)
  prop C07 C14 C15
