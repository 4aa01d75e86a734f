package netconn

// ---- time limits of a connection

ghost wdl(iface) int        // the write deadline in force
ghost rdl(iface) int
ghost nowv(int) int         // the last time read from the clock

extern "time.Now"()(t)
  modifies nowv(0)
  ensures t.t == nowv(0)
extern "(time.Time).Add"(t, d)(r)
  ensures r.t == t.t + d

extern "iface:netconn.connTimeout.SetWriteDeadline"(c, t)(err)
  modifies wdl(c)
  ensures err == nil ==> wdl(c) == t.t
extern "iface:netconn.connTimeout.SetReadDeadline"(c, t)(err)
  modifies rdl(c)
  ensures err == nil ==> rdl(c) == t.t

check immutable "timeoutWriter.writer"
check immutable "timeoutWriter.timeout"
check immutable "timeoutWriter.writeTimeout"
check immutable "timeoutReader.ReadCloser"
check immutable "timeoutReader.timeout"
check immutable "timeoutReader.readTimeout"
typeinv timeoutWriter(w): w.writer != nil && w.timeout != nil && w.writer == w.timeout
typeinv timeoutReader(r): r.ReadCloser != nil && r.timeout != nil && r.ReadCloser == r.timeout

func (*timeoutWriter).Write(w, p)(n, err)
  prop C21
  requires !werr(w.writer)
  requires outlen(w.writer) >= 0
  modifies wdl(w.timeout), nowv(0), outlen(w.writer), out(w.writer), werr(w.writer)
  atcall "iface:io.Writer.Write" @C21 wdl(w.timeout) == nowv(0) + w.writeTimeout

func (*timeoutReader).Read(r, p)(n, err)
  prop C21
  modifies rdl(r.timeout), nowv(0), content(p), reads(r.ReadCloser), inpos(r.ReadCloser)
  atcall "iface:io.ReadCloser.Read" @C21 rdl(r.timeout) == nowv(0) + r.readTimeout
extern "iface:io.ReadCloser.Read"(r, p)(n, err)
  flag blocks
  modifies reads(r), inpos(r), content(p)
  ensures 0 <= n && n <= len(p) && reads(r) == old(reads(r)) + 1 && inpos(r) == old(inpos(r)) + n
  ensures forall j {content(p)[j]} :: off(p) <= j && j < off(p) + n ==> content(p)[j] == instream(r)[old(inpos(r)) + j - off(p)]
  ensures forall j {content(p)[j]} :: j < off(p) || j >= off(p) + len(p) ==> content(p)[j] == old(content(p))[j]

// ---- dialing
ghost bufdst(ref) iface  // what a buffered writer writes to
extern "bufio.NewWriterSize"(w, size)(r)
  ensures r != nil && fresh(r) && bufdst(r) == w

ghost dials(int) int        // connections opened
ghost dialed(int) iface     // the last one
extern "fn:netconn.config.dialFunc"(network, address, timeout)(c, err)
  modifies dials(0), dialed(0)
  ensures err == nil ==> c != nil && dialed(0) == c && dials(0) == old(dials(0)) + 1 && closes(c) == 0
  ensures err != nil ==> dials(0) == old(dials(0)) && dialed(0) == old(dialed(0))
extern "fn:netconn.dialFunc"(network, address, timeout)(c, err)
  modifies dials(0), dialed(0)
  ensures err == nil ==> c != nil && dialed(0) == c && dials(0) == old(dials(0)) + 1 && closes(c) == 0
  ensures err != nil ==> dials(0) == old(dials(0)) && dialed(0) == old(dialed(0))
extern "iface:net.Conn.Close"(c)(err)
  modifies closes(c)
  ensures closes(c) == old(closes(c)) + 1
extern "iface:net.Conn.Write"(c, p)(n, err)
  modifies ncout(c), inpos(c)
  ensures err == nil ==> ncout(c) == old(ncout(c)) + len(p)
ghost ncout(iface) int

// the settings of a dial come from its options; a nil dial function is the caller's mistake
extern "fn:netconn.Option"(conf)
  requires conf != nil
  modifies *conf
  ensures conf.dialFunc != nil
ghost cfgr(int) int
ghost cfgw(int) int
func computeConfig(options)(r)
  prop C21
  requires forall i :: 0 <= i < len(options) ==> options[i] != nil
  ensures r.dialFunc != nil
  inv $conf.dialFunc != nil
  modifies cfgr(0), cfgw(0)
  atexit cfgr(0) := r.readTimeout
  atexit cfgw(0) := r.writeTimeout
  ensures cfgr(0) == r.readTimeout && cfgw(0) == r.writeTimeout

func DialNewConn(addr, options)(nc, err)
  prop C21
  requires forall i :: 0 <= i < len(options) ==> options[i] != nil
  modifies dials(0), dialed(0), cfgr(0), cfgw(0), all closes
  let d0 = dials(0)
  ensures @C21 dials(0) > d0 && err != nil ==> closes(dialed(0)) > 0
  ensures @C21 err == nil ==> dials(0) == d0 + 1 && closes(dialed(0)) == 0
  ensures @C21 err == nil ==> is(*"bufio.Writer", nc.Writer) && is(*timeoutWriter, bufdst(as(*"bufio.Writer", nc.Writer)))
  ensures @C21 err == nil ==> as(*timeoutWriter, bufdst(as(*"bufio.Writer", nc.Writer))).writer == dialed(0) && as(*timeoutWriter, bufdst(as(*"bufio.Writer", nc.Writer))).writeTimeout == cfgw(0)
  ensures @C21 err == nil ==> is(*timeoutReader, nc.Reader) && as(*timeoutReader, nc.Reader).ReadCloser == dialed(0) && as(*timeoutReader, nc.Reader).readTimeout == cfgr(0)
  ensures @C21 err == nil ==> nc.Closer == nc.Reader

func tryReadBytes(reader, numBytes)(r, err)
  prop C21
  requires reader != nil && 0 <= numBytes && numBytes <= 1073741824
  modifies reads(reader), inpos(reader)
  let p0 = inpos(reader)
  inv inpos(reader) == p0 + (numBytes - len($nextData))
  inv len($nextData) + off($nextData) == numBytes
  inv forall j {content($nextData)[j]} :: 0 <= j && j < off($nextData) ==> content($nextData)[j] == instream(reader)[p0 + j]
  ensures err == nil ==> len(r) == numBytes && inpos(reader) == p0 + numBytes
  ensures @C21 err == nil ==> forall i {r[i]} :: 0 <= i && i < numBytes ==> r[i] == instream(reader)[p0 + i]

func GetDialFunc$1(network, address, timeout)(c, err)
  prop C21
  requires a != nil && dialFunc != nil
  modifies dials(0), dialed(0), all closes, all ncout, all inpos, all reads
  let d0 = dials(0)
  ensures @C21 dials(0) > d0 && err != nil ==> closes(dialed(0)) > 0
  ensures @C21 err != nil ==> c == nil
  ensures @C21 err == nil ==> c == dialed(0) && dials(0) == d0 + 1 && closes(c) == 0
  ensures @C21 err == nil ==> bytes(instream(c), inpos(c) - 8, 8) == "STORED\r\n"
