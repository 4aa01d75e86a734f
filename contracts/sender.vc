package memcache

// ---- the sending side and the reconnector

func (*sender).waitForError(s)(closed)
  prop C12 C13 C14 C15
  flag role=reconnector
  ensures @C13.C12 s.conn.lastErr.v != nil

// the reconnector replaces a connection only after it has failed
func (*sender).resetNetConn(s, nc)
  prop C12 C13 C14 C15
  flag role=reconnector
  requires @C13.C12 s.conn.lastErr.v != nil
  requires nc.Writer != nil && nc.Reader != nil && nc.Closer != nil && !werr(nc.Writer)
  modifies s.conn, closes(nc.Closer)
  ensures @C12.C14 s.conn != old(s.conn) || closes(nc.Closer) == old(closes(nc.Closer)) + 1
  ensures @C12.C13 s.conn != old(s.conn) ==> s.conn.sender == s && s.conn.writer == nc.Writer && s.conn.reader == nc.Reader && s.conn.closer == nc.Closer && closes(nc.Closer) == old(closes(nc.Closer))

func (*sender).shutdown(s)
  prop C11 C12 C14 C15
  flag role=receiver
  modifies s.closed, all closes, all senderConnection.lastErr
  ensures @C12.C14 s.closed

func (*sender).closeSendJob(s)
  prop C08 C14
  modifies all commandListData.link where spos(a) == 0 && !(qbuf(a) == &s.sendBuf && qpos(a) < spop(&s.sendBuf)), all qbuf where qbuf(a) == nil, all qpos where qbuf(a) == nil
  ensures @C08.C11 s.sendBuf.closed
