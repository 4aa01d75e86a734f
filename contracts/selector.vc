package memcache

// ---- the in-flight limiter: rc(l) counts the commands credited back
ghost rc(*connWriteLimiter) int
ghost lwaits(*connWriteLimiter) int

check immutable "connWriteLimiter.writeLimit"
typeinv connWriteLimiter(l): l.writeLimit <= 1073741824
check volatile "memcache.connWriteLimiter.cmdReadCount" monotone "memcache.connWriteLimiter.readMut"

monitor limiter(l *connWriteLimiter).readMut
  protects
  role receiver: rc
  havoc rc(l)
  invariant @C10 l.cmdReadCount.v == rc(l)
  invariant @assume rc(l) < 4611686018427387904
  transition @C10 old(rc(l)) <= rc(l)
  cond readCond owes l.cmdReadCount.v != old(l.cmdReadCount.v)

func (*connWriteLimiter).addReadCount(l, num)
  prop C10 C14 C15
  flag role=receiver
  requires num <= 1073741824
  modifies rc(l), l.cmdReadCount
  atrelease rc(l) := rc(l) + num
  ensures @C10 rc(l) == old(rc(l)) + num

func (*connWriteLimiter).addWriteCount(l, num)
  prop C10
  requires l.cmdWriteCount < 4611686018427387904 && num <= 1073741824
  modifies l.cmdWriteCount
  ensures @C10 l.cmdWriteCount == old(l.cmdWriteCount) + num
  ensures @assume l.cmdWriteCount < 4611686018427387904

// ok: the commands in flight, these included, stay within the limit
func (*connWriteLimiter).allowMoreWrite(l, num, waiting)(ok)
  prop C10 C14 C15 C09
  requires num <= l.writeLimit && l.cmdWriteCount < 4611686018427387904
  modifies l.justWaited, l.cmdReadCount, rc(l), lwaits(l)
  waits l.cmdWriteCount + num > l.cmdReadCount.v + l.writeLimit
  atexit lwaits(l) := lwaits(l) + 1 if l.justWaited
  ensures @C10 ok ==> l.cmdWriteCount + num <= l.cmdReadCount.v + l.writeLimit
  ensures @C09 waiting ==> ok
  ensures @C09 lwaits(l) == old(lwaits(l)) + (l.justWaited ? 1 : 0) && (!waiting ==> !l.justWaited)

// ---- the scheduler: pipeline k of the queue has sdn(s)[k] batches emitted; pipelines before ilo(s) have
// left the input list; the long list holds the next batches of the pipelines lk(s)[llo(s)..lhi(s)-1]
ghost ilo(*inputSelector) int
ghost sdn(*inputSelector) [int]int
ghost llo(*inputSelector) int
ghost lhi(*inputSelector) int
ghost lk(*inputSelector) [int]int
ghost lp(*inputSelector) [int]int
// emissions: the n-th emitted batch is em(s)[n], number ei(s)[n] of pipeline ek(s)[n]
ghost em(*inputSelector) [int]*commandListData
ghost ek(*inputSelector) [int]int
ghost ei(*inputSelector) [int]int
ghost en(*inputSelector) int

check immutable "inputSelector.readLimit"
check immutable "inputSelector.sendBuf"
typeinv inputSelector(s): s.sendBuf != nil && 1 <= s.readLimit && s.readLimit <= 1073741824

pred lnode(s *inputSelector, j int) *commandListData = sib(sq(s.sendBuf)[lk(s)[j]])[sdn(s)[lk(s)[j]]]

pred selok(s *inputSelector) bool = 0 <= ilo(s) && ilo(s) <= spop(s.sendBuf) && spop(s.sendBuf) <= sacc(s.sendBuf) && llo(s) <= lhi(s) && 0 <= en(s)
  && s.writeLimiter.cmdWriteCount < 4611686018427387904
  && (forall k {sq(s.sendBuf)[k]} :: 0 <= k && k < spop(s.sendBuf) ==> sq(s.sendBuf)[k] != nil && qbuf(sq(s.sendBuf)[k]) == s.sendBuf && qpos(sq(s.sendBuf)[k]) == k
        && nsib(sq(s.sendBuf)[k]) >= 1 && sib(sq(s.sendBuf)[k])[0] == sq(s.sendBuf)[k])
  && (forall k {sdn(s)[k]} :: 0 <= k && k < spop(s.sendBuf) ==> (k >= ilo(s) ==> sdn(s)[k] == 0) && (k < ilo(s) ==> 1 <= sdn(s)[k] && sdn(s)[k] <= nsib(sq(s.sendBuf)[k])))
  && (forall k {sdn(s)[k]} :: k >= spop(s.sendBuf) ==> sdn(s)[k] == 0)
  && (forall k {sdn(s)[k]} :: 0 <= k && k < ilo(s) && sdn(s)[k] < nsib(sq(s.sendBuf)[k]) ==> llo(s) <= lp(s)[k] && lp(s)[k] < lhi(s) && lk(s)[lp(s)[k]] == k)
  && (forall j {lk(s)[j]} :: llo(s) <= j && j < lhi(s) ==> 0 <= lk(s)[j] && lk(s)[j] < ilo(s) && lp(s)[lk(s)[j]] == j && sdn(s)[lk(s)[j]] < nsib(sq(s.sendBuf)[lk(s)[j]]))
  && (forall k, i {sib(sq(s.sendBuf)[k])[i]} :: 0 <= k && k < spop(s.sendBuf) && sdn(s)[k] <= i && i < nsib(sq(s.sendBuf)[k]) ==>
        sib(sq(s.sendBuf)[k])[i] != nil && shead(sib(sq(s.sendBuf)[k])[i]) == sq(s.sendBuf)[k] && spos(sib(sq(s.sendBuf)[k])[i]) == i
        && sib(sq(s.sendBuf)[k])[i].sibling == (i + 1 < nsib(sq(s.sendBuf)[k]) ? sib(sq(s.sendBuf)[k])[i+1] : nil)
        && 0 <= sib(sq(s.sendBuf)[k])[i].cmdCount && sib(sq(s.sendBuf)[k])[i].cmdCount <= 1073741824
        && (i > sdn(s)[k] && i > 0 ==> sib(sq(s.sendBuf)[k])[i].link == nil))
  && s.inputList.head == (ilo(s) < spop(s.sendBuf) ? sq(s.sendBuf)[ilo(s)] : nil)
  && s.inputList.last == (ilo(s) < spop(s.sendBuf) ? &sq(s.sendBuf)[spop(s.sendBuf)-1].link : &s.inputList.head)
  && (forall k {sq(s.sendBuf)[k].link} :: ilo(s) <= k && k < spop(s.sendBuf) ==> sq(s.sendBuf)[k].link == (k + 1 < spop(s.sendBuf) ? sq(s.sendBuf)[k+1] : nil))
  && s.longCmdList.head == (llo(s) < lhi(s) ? lnode(s, llo(s)) : nil)
  && s.longCmdList.last == (llo(s) < lhi(s) ? &lnode(s, lhi(s) - 1).link : &s.longCmdList.head)
  && (forall j {lnode(s, j).link} :: llo(s) <= j && j < lhi(s) ==> lnode(s, j).link == (j + 1 < lhi(s) ? lnode(s, j + 1) : nil))

// one step: the head of the list is emitted, its successor in the pipeline joins the long list
func (*inputSelector).getNextCommand(s, cmdList, result, justWaited)(newResult, status)
  prop C09 C10 C14 C15
  requires selok(s) && (cmdList == &s.inputList || cmdList == &s.longCmdList) && justWaited != nil
  modifies *cmdList, s.longCmdList, s.writeLimiter, rc(&s.writeLimiter), lwaits(&s.writeLimiter), *justWaited, content(result)
  modifies all commandListData.link where qbuf(a) == s.sendBuf || spos(a) > 0
  modifies ilo(s), sdn(s), llo(s), lhi(s), lk(s), lp(s), em(s), ek(s), ei(s), en(s)
  let isin = cmdList == &s.inputList
  let hd = cmdList.head
  let pk = isin ? ilo(s) : lk(s)[llo(s)]
  let more = sdn(s)[pk] + 1 < nsib(sq(s.sendBuf)[pk])
  atcall "(*connWriteLimiter).allowMoreWrite" @C09 waiting ==> len(result) == 0
  atexit em(s)[en(s)] := hd if len(newResult) > len(result)
  atexit ek(s)[en(s)] := pk if len(newResult) > len(result)
  atexit ei(s)[en(s)] := sdn(s)[pk] if len(newResult) > len(result)
  atexit en(s) := en(s) + 1 if len(newResult) > len(result)
  atexit sdn(s)[pk] := sdn(s)[pk] + 1 if len(newResult) > len(result)
  atexit ilo(s) := ilo(s) + 1 if len(newResult) > len(result) && isin
  atexit llo(s) := llo(s) + 1 if len(newResult) > len(result) && !isin
  atexit lk(s)[lhi(s)] := pk if len(newResult) > len(result) && more
  atexit lp(s)[pk] := lhi(s) if len(newResult) > len(result) && more
  atexit lhi(s) := lhi(s) + 1 if len(newResult) > len(result) && more
  inv $next == nil ? s.longCmdList.last == &hd.sibling.link : $next == hd.sibling
  ensures @C09.C10 selok(s)
  ensures @C09 len(newResult) == len(result) || len(newResult) == len(result) + 1 && len(result) < s.readLimit
  ensures @C09 forall i :: 0 <= i && i < len(result) ==> newResult[i] == old(seq(result))[i]
  ensures @C09 hd == nil ==> len(newResult) == len(result) && status.allowMore
  ensures @C09 len(newResult) > len(result) ==> hd != nil && newResult[len(result)] == hd && status.allowMore && status.hasSibling == more && en(s) == old(en(s)) + 1 && em(s)[old(en(s))] == hd && ek(s)[old(en(s))] == pk && ei(s)[old(en(s))] == old(sdn(s))[pk]
  ensures @C09 len(newResult) == len(result) ==> !status.hasSibling && en(s) == old(en(s)) && em(s) == old(em(s)) && (status.allowMore ==> hd == nil)
  ensures @C09 !status.allowMore ==> len(result) >= 1
  ensures @C10 len(newResult) > len(result) ==> s.writeLimiter.cmdWriteCount == old(s.writeLimiter.cmdWriteCount) + hd.cmdCount
  ensures @C10 len(newResult) == len(result) ==> s.writeLimiter.cmdWriteCount == old(s.writeLimiter.cmdWriteCount)
  ensures @C10 len(newResult) > len(result) && hd.cmdCount <= s.writeLimiter.writeLimit ==> s.writeLimiter.cmdWriteCount <= s.writeLimiter.cmdReadCount.v + s.writeLimiter.writeLimit
  ensures @C09 len(result) > 0 ==> lwaits(&s.writeLimiter) == old(lwaits(&s.writeLimiter))
