package memcache

// ---- one network connection: the first failure stays and closes it once

ghost closes(iface) int     // how often a closer was closed
ghost werr(iface) bool      // the last write to a writer failed
ghost flushes(iface) int
ghost reads(iface) int
ghost wcnt(iface) int       // batches written completely to a writer
ghost wcmd(iface) [int]*commandListData
ghost wat(iface) [int]int   // where the k-th batch starts in the stream

check immutable "senderConnection.sender"
check immutable "senderConnection.writer"
check immutable "senderConnection.reader"
check immutable "senderConnection.closer"
check immutable "senderLastError.err"
typeinv senderConnection(c): c.sender != nil && c.writer != nil && c.reader != nil && c.closer != nil
typeinv senderLastError(e): e.err != nil

check volatile "memcache.senderConnection.lastErr" sticky "sender" "memcache.sender.connMut"

monitor connmon(s *sender).connMut
  protects conn closed
  role reconnector: conn
  role receiver: closed
  invariant s.conn != nil && s.conn.sender == s
  invariant @C12.C13 s.conn.lastErr.v == nil ==> !werr(s.conn.writer)
  invariant @C12.C14 s.closed ==> s.conn.lastErr.v != nil
  transition @C14 old(s.closed) ==> s.closed
  transition @C12.C13 old(s.conn) != s.conn ==> old(s.conn.lastErr.v) != nil
  cond ncErrorCond: !s.closed && s.conn.lastErr.v == nil

extern "iface:io.Closer.Close"(c)(err)
  modifies closes(c)
  ensures closes(c) == old(closes(c)) + 1

extern "iface:netconn.FlushWriter.Flush"(w)(err)
  requires @C12 !werr(w)
  modifies werr(w), flushes(w)
  ensures (werr(w) <==> err != nil) && flushes(w) == old(flushes(w)) + 1 && !errclosed(err)

// what the other side sent, and how much of it was read
ghost instream(iface) [int]int
ghost inpos(iface) int
extern "iface:io.Reader.Read"(r, p)(n, err)
  flag blocks
  modifies reads(r), inpos(r), content(p)
  ensures !errclosed(err) && 0 <= n && n <= len(p) && reads(r) == old(reads(r)) + 1 && inpos(r) == old(inpos(r)) + n
  ensures forall j {content(p)[j]} :: off(p) <= j && j < off(p) + n ==> content(p)[j] == instream(r)[old(inpos(r)) + j - off(p)]
  ensures forall j {content(p)[j]} :: j < off(p) || j >= off(p) + len(p) ==> content(p)[j] == old(content(p))[j]

func (*senderConnection).getLastErrorInternal(c)(err)
  prop C12 C15
  ensures @C12 (err == nil <==> c.lastErr.v == nil) && (err != nil ==> err == c.lastErr.v.err)
  ensures @C12 old(c.lastErr.v) != nil ==> err != nil && err == old(c.lastErr.v.err)

// ErrConnClosed marks the end of a connection's life: it is only recorded after shutdown
pred errclosed(e iface) bool = e != nil && !is(ErrBrokenPipe, e) && uf("errclosed", bool, e)
extern "errors.Is"(err, target)(r)
  ensures target == ErrConnClosed ==> (r <==> errclosed(err))
  ensures target == ErrConnClosed && err == ErrConnClosed ==> r

func (*senderConnection).setLastErrorAndCloseUnsafe(c, err)(r)
  prop C12 C14 C15
  requires err != nil
  requires @C11 errclosed(err) ==> c.sender.closed
  holds connmon c.sender
  modifies closes(c.closer), c.lastErr
  signals c.sender.ncErrorCond if old(c.lastErr.v) == nil
  ensures @C12 r == (old(c.lastErr.v) == nil ? err : old(c.lastErr.v.err))
  ensures @C12 c.lastErr.v != nil && c.lastErr.v.err == r && (old(c.lastErr.v) != nil ==> c.lastErr.v == old(c.lastErr.v))
  ensures @C12 closes(c.closer) == old(closes(c.closer)) + (old(c.lastErr.v) == nil ? 1 : 0)

func (*senderConnection).setLastErrorAndClose(c, err)(r)
  prop C12 C14 C15 C06
  requires err != nil
  requires @C11 !errclosed(err)
  modifies closes(c.closer), c.lastErr
  ensures @C12.C06 r != nil && c.lastErr.v != nil && r == c.lastErr.v.err
  ensures @C12 old(c.lastErr.v) != nil ==> r == old(c.lastErr.v.err) && closes(c.closer) == old(closes(c.closer))

// the last read of a connection: how many bytes, and where they are
ghost rdn(*senderConnection) int
ghost rdarr(*senderConnection) ref
func (*senderConnection).readData(conn, data)(n, err)
  prop C12 C14 C15 C13
  modifies closes(conn.closer), conn.lastErr, content(data), reads(conn.reader), inpos(conn.reader), rdn(conn), rdarr(conn)
  atexit rdn(conn) := n
  atexit rdarr(conn) := arr(data)
  ensures 0 <= n && n <= len(data)
  ensures @C13 rdn(conn) == n && rdarr(conn) == arr(data)
  ensures @C12 old(conn.lastErr.v) != nil ==> err == old(conn.lastErr.v.err) && n == 0 && reads(conn.reader) == old(reads(conn.reader))
  ensures @C12 err != nil ==> conn.lastErr.v != nil && err == conn.lastErr.v.err

func (*sender).writeAndFlush(s, conn)
  prop C12 C01 C13 C14 C15
  holds connmon s
  requires conn != nil && conn.sender == s
  requires conn.lastErr.v == nil ==> !werr(conn.writer)
  requires outlen(conn.writer) >= 0
  requires forall i :: 0 <= i && i < len(s.tmpBuf) ==> wireok(s.tmpBuf[i])
  modifies closes(conn.closer), conn.lastErr, werr(conn.writer), flushes(conn.writer), outlen(conn.writer), out(conn.writer), wcnt(conn.writer), wcmd(conn.writer), wat(conn.writer)
  signals s.ncErrorCond if old(conn.lastErr.v) == nil && conn.lastErr.v != nil
  let o0 = outlen(conn.writer)
  let w = conn.writer
  inv outlen(w) >= o0 && !werr(w) && conn.lastErr.v == nil
  inv wcnt(w) == old(wcnt(w)) + $k
  inv forall k {wcmd(w)[k]} :: old(wcnt(w)) <= k && k < wcnt(w) ==> wcmd(w)[k] == s.tmpBuf[k - old(wcnt(w))]
  inv $k > 0 ==> wat(w)[old(wcnt(w))] == o0
  inv $k > 0 ==> wat(w)[wcnt(w)-1] + wlen(wcmd(w)[wcnt(w)-1]) == outlen(w)
  ensures @C12 old(conn.lastErr.v) != nil ==> outlen(w) == o0 && flushes(w) == old(flushes(w)) && closes(conn.closer) == old(closes(conn.closer)) && conn.lastErr.v == old(conn.lastErr.v)
  ensures @C12 conn.lastErr.v == nil ==> !werr(w) && flushes(w) == old(flushes(w)) + 1
  ensures @C12 werr(w) && !old(werr(w)) ==> conn.lastErr.v != nil
  ensures @C01.C13 conn.lastErr.v == nil ==> wcnt(w) == old(wcnt(w)) + len(s.tmpBuf)
  ensures @C01.C13 conn.lastErr.v == nil ==> forall k {wcmd(w)[k]} :: old(wcnt(w)) <= k && k < wcnt(w) ==> wcmd(w)[k] == s.tmpBuf[k - old(wcnt(w))]
