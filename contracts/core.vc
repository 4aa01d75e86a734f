package memcache

// ---- the receiving side of a connection

check immutable "coreConnection.responseReader"
check immutable "coreConnection.sender"
check immutable "coreConnection.msgData"
check immutable "coreConnection.cmdList"
check immutable "cmdListReader.sender"
check immutable "cmdListReader.cmdList"
typeinv coreConnection(c): c.responseReader != nil && c.sender != nil && c.cmdList != nil && c.cmdList.sender == c.sender
typeinv cmdListReader(l): l.sender != nil && len(l.cmdList) >= 1 && len(l.cmdList) <= 1073741824 && off(l.cmdList) == 0
// the read buffer of a connection is its own (it is allocated in newCoreConnection and never leaves the connection)
ghost rbuf(*responseReader) ref
typeinv coreConnection(c) @assume: rbuf(c.responseReader) == arr(c.msgData)
typeinv cmdListReader(l) @assume: arr(l.cmdList) != arr(l.sender.recv.buf)

// replies received for a batch
ghost nrep(*commandListData) int

// batches taken over and completed so far; the rest of cmdList are the batches that come next
pred proc(l *cmdListReader) int = l.sender.recv.begin - (l.length - l.offset)
pred clr(l *cmdListReader) bool = clrest(l, 0)
pred clrest(l *cmdListReader, d int) bool = l.sender.recv.begin <= l.sender.recv.end && 0 <= l.offset && l.offset <= l.length && l.length <= len(l.cmdList)
  && (forall i {l.cmdList[i]} :: l.offset + d <= i && i < l.length ==> l.cmdList[i] == hist(&l.sender.recv)[proc(l) + i - l.offset] && handed(l.cmdList[i], l.sender) && rpos(l.cmdList[i]) == proc(l) + i - l.offset)

func newCmdListReader(sender)(r)
  prop C11
  requires sender != nil
  ensures @C11 r != nil && fresh(r) && r.sender == sender && r.length == 0 && r.offset == 0

func (*cmdListReader).readIfExhausted(l)(r)
  prop C11 C13
  flag role=consumer
  requires clr(l)
  modifies l.length, l.offset, content(l.cmdList), l.sender.recv.begin, hist(&l.sender.recv)
  ensures @C11.C13 clr(l) && proc(l) == old(proc(l)) && r == l.length
  ensures @C11.C13 r > 0 ==> l.offset < l.length
  ensures @C11 old(l.sender.recv.begin) <= l.sender.recv.begin
  ensures @C11 r == 0 ==> l.sender.recv.closed && l.sender.recv.begin == l.sender.recv.end && l.offset == 0
  ensures @C11 forall k {hist(&l.sender.recv)[k]} :: k < old(l.sender.recv.begin) ==> hist(&l.sender.recv)[k] == old(hist(&l.sender.recv))[k]

func (*cmdListReader).next(l)
  prop C11
  requires clrest(l, 1) && l.offset < l.length
  modifies l.offset, content(l.cmdList)
  ensures @C11 clr(l) && proc(l) == old(proc(l)) + 1 && l.length == old(l.length)

pred msgapart(c *coreConnection) bool = arr(c.msgData) != arr(c.responseReader.tmpData) && (arr(c.responseReader.currentBinary) != nil ==> arr(c.msgData) != arr(c.responseReader.currentBinary))

// one reply, read from the connection the batch was written on and from no other
func (*coreConnection).readNextMemcacheCommandResponse(c, current, inc)(err)
  prop C10 C11 C13
  light C14 C15
  flag role=receiver
  requires current != nil && inc != nil && current.conn != nil && current.conn.sender == c.sender && 0 <= current.cmdCount && current.cmdCount <= 1073741824
  requires rst(c.responseReader) && c.responseReader.currentCmd == current && msgapart(c) && arr(c.msgData) != arr(current.responseData)
  requires @C13 c.readerConn == current.conn
  let r = c.responseReader
  modifies r.state, r.tmpData, r.dataLen, r.currentBinary, r.currentIndex, r.lastErr, r.remainingData, content(r.tmpData), content(r.currentBinary)
  modifies r.currentCmd.responseData, content(r.currentCmd.responseData), r.currentCmd.responseBinaries, content(r.currentCmd.responseBinaries), rin(r), rend(r), rs(r), rb(r), rbn(r)
  modifies content(c.msgData), inc.increased, c.sender.selector.writeLimiter.cmdReadCount, rc(&c.sender.selector.writeLimiter), closes(current.conn.closer), current.conn.lastErr, reads(current.conn.reader), inpos(current.conn.reader), rdn(current.conn), rdarr(current.conn), nrep(current)
  atexit nrep(current) := nrep(current) + 1 if err == nil
  atcall "(*senderConnection).readData" @C13 conn == current.conn
  atcall "(*responseReader).recv" @C13 len(data) == rdn(current.conn) && (len(data) > 0 ==> arr(data) == rdarr(current.conn) && off(data) == off(c.msgData))
  ensures @C10 inc.increased && rc(&c.sender.selector.writeLimiter) == old(rc(&c.sender.selector.writeLimiter)) + (old(inc.increased) ? 0 : current.cmdCount)
  ensures @C11.C13 err == nil ==> rst(r) && r.state == 1 && arr(c.msgData) != arr(current.responseData) && rreply(r, old(rs(r)), old(rb(r)), old(rbn(r)), rs(r))
  ensures @C11 nrep(current) == old(nrep(current)) + (err == nil ? 1 : 0)
  ensures @C11.C13 msgapart(c) && sepb(r)
  ensures @C11 err != nil ==> current.conn.lastErr.v != nil && err == current.conn.lastErr.v.err
  inv rst(r)
  inv r.currentCmd == current
  inv msgapart(c) && arr(c.msgData) != arr(current.responseData)
  inv grown(r, old(arr(r.tmpData)), old(arr(r.currentBinary)), old(arr(r.currentCmd.responseData)), old(arr(r.currentCmd.responseBinaries)))
  inv rs(r) == old(rs(r)) && rb(r) == old(rb(r)) && rbn(r) == old(rbn(r))
  inv rc(&c.sender.selector.writeLimiter) == old(rc(&c.sender.selector.writeLimiter)) + (inc.increased && !old(inc.increased) ? current.cmdCount : 0)
  inv old(inc.increased) ==> inc.increased

pred coreidle(c *coreConnection) bool = ridle(c.responseReader) && msgapart(c)

func (*coreConnection).recvSingleCommandData(c, inc)(err)
  prop C10 C11 C13
  light C14 C15
  flag role=receiver
  flag role=consumer
  requires inc != nil && !inc.increased && clr(c.cmdList) && coreidle(c)
  modifies any
  let l = c.cmdList
  let lim = &c.sender.selector.writeLimiter
  ensures @C11.C13 clr(l) && proc(l) == old(proc(l)) && msgapart(c) && sepb(c.responseReader)
  ensures @C11.C13 err == nil ==> l.offset < l.length && coreidle(c)
  ensures @C11 err == nil ==> forall a ref {nrep(a)} :: nrep(a) == old(nrep(a)) + (a == l.cmdList[l.offset] ? l.cmdList[l.offset].cmdCount : 0)
  ensures @C10 l.offset < l.length ==> rc(lim) == old(rc(lim)) + l.cmdList[l.offset].cmdCount
  ensures @C10 l.offset == l.length ==> rc(lim) == old(rc(lim))
  ensures @C11 l.offset == l.length ==> err == ErrConnClosed && c.sender.recv.closed && c.sender.recv.begin == c.sender.recv.end
  ensures @C11 l.offset < l.length && err != nil ==> l.cmdList[l.offset].conn.lastErr.v != nil && err == l.cmdList[l.offset].conn.lastErr.v.err
  // recorded errors are ErrConnClosed only by shutdown (see setLastErrorAndCloseUnsafe), which only the receiver calls, as its last step
  ensures @assume l.offset < l.length && err != nil && errclosed(err) ==> c.sender.closed
  ensures @C11 c.sender.closed == old(c.sender.closed)
  ensures @C11 forall a ref {chsent(a)} :: chsent(a) == old(chsent(a))
  ensures @C11 old(c.sender.recv.begin) <= c.sender.recv.begin
  ensures @C11 forall k {hist(&c.sender.recv)[k]} :: k < old(c.sender.recv.begin) ==> hist(&c.sender.recv)[k] == old(hist(&c.sender.recv))[k]
  inv clr(l) && proc(l) == old(proc(l)) && l.offset < l.length && $current == l.cmdList[l.offset]
  inv rst(c.responseReader) && c.responseReader.state == 1 && c.responseReader.currentCmd == $current && msgapart(c) && arr(c.msgData) != arr($current.responseData)
  inv c.readerConn == $current.conn
  inv 0 <= $count && $count <= $current.cmdCount && (inc.increased <==> $count > 0) && rc(lim) == old(rc(lim)) + ($count > 0 ? $current.cmdCount : 0)
  inv forall a ref {nrep(a)} :: nrep(a) == old(nrep(a)) + (a == $current ? $count : 0)

// the receiver: every batch that was written is completed, in order, exactly once
func (*coreConnection).recvCommands(cc)
  prop C10 C11 C13
  light C14 C15
  flag role=receiver
  flag role=consumer
  requires clr(cc.cmdList) && cc.cmdList.offset == cc.cmdList.length && coreidle(cc) && !cc.sender.closed
  modifies any
  let l = cc.cmdList
  let q = &cc.sender.recv
  atcall "(*commandListData).setCompleted" @C11 c == l.cmdList[l.offset]
  atcall "(*sender).shutdown" @C11 cc.sender.recv.closed && proc(l) == cc.sender.recv.end
  ensures @C11 q.closed && cc.sender.closed
  ensures @C11 forall k {hist(q)[k]} :: old(proc(l)) <= k && k < q.end ==> chsent(hist(q)[k].ch) == 1
  inv clr(l) && coreidle(cc) && !cc.sender.closed
  inv old(proc(l)) <= proc(l)
  inv forall k {hist(q)[k]} :: old(proc(l)) <= k && k < proc(l) ==> chsent(hist(q)[k].ch) == 1
