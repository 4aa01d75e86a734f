package memcache

// ---- framing, one byte at a time: c is the automaton's state (numbered as in the code, 0: protocol error), a and b belong to the state
datatype Q = qmk(c int, a int, b int)

pred digit(x int) bool = 48 <= x && x <= 57
rec dval(in [int]int, s int, e int) int #2 = e <= s ? 0 : dval(in, s, e - 1) * 10 + (in[e-1] - 48)
pred qs(x int) int = x == 13 ? 4 : 2
pred qstep(q Q, in [int]int, p int) Q =
    q.c == 1 ? (in[p] == 86 ? qmk(5, 0, 0) : qmk(qs(in[p]), 0, 0))
  : q.c == 2 ? qmk(qs(in[p]), 0, 0)
  : q.c == 4 ? qmk(in[p] == 10 ? 3 : 0, 0, 0)
  : q.c == 5 ? (in[p] == 65 ? qmk(6, 0, 0) : qmk(qs(in[p]), 0, 0))
  : q.c == 6 ? (in[p] == 32 ? q : digit(in[p]) ? qmk(7, p, 0) : qmk(0, 0, 0))
  : q.c == 7 ? (digit(in[p]) ? q : dval(in, q.a, p) > 1073741824 ? qmk(0, 0, 0) : qmk(in[p] == 13 ? 9 : 8, 0, dval(in, q.a, p)))
  : q.c == 8 ? qmk(in[p] == 13 ? 9 : 8, 0, q.b)
  : q.c == 9 ? (in[p] == 10 ? qmk(10, q.b + 2, q.b) : qmk(0, 0, 0))
  : q.c == 10 ? (q.a <= 1 ? qmk(3, 1, q.b) : qmk(10, q.a - 1, q.b))
  : q
// the state after the bytes s..p-1 of a reply that starts at s
rec frame(in [int]int, s int, p int) Q #2 = p <= s ? qmk(1, 0, 0) : qstep(frame(in, s, p - 1), in, p - 1)

lemma frange(in [int]int, s int, p int) {frame(in, s, p)} = 0 <= s ==> 0 <= frame(in, s, p).c && frame(in, s, p).c <= 10 by p
lemma ferr(in [int]int, s int, p int, e int) {frame(in, s, p), frame(in, s, e)} = 0 <= s && s <= p && p <= e && frame(in, s, p).c == 0 ==> frame(in, s, e).c == 0 by e
lemma fstop(in [int]int, s int, p int, e int) {frame(in, s, p), frame(in, s, e)} = 0 <= s && s <= p && p < e && qstep(frame(in, s, p), in, p).c == 0 ==> frame(in, s, p + 1).c == 0 && frame(in, s, e).c == 0
lemma dstep(in [int]int, s int, e int) {dval(in, s, e), in[e]} = s <= e ==> dval(in, s, e + 1) == dval(in, s, e) * 10 + in[e] - 48
lemma dmono(in [int]int, s int, p int, e int) {dval(in, s, p), dval(in, s, e)} = 0 <= s && s <= p && p <= e && (forall j {in[j]} :: p <= j && j < e ==> digit(in[j])) && dval(in, s, p) > 1073741824 ==> dval(in, s, e) > 1073741824 by e
lemma fbin(in [int]int, s int, p int, e int) {frame(in, s, p), frame(in, s, e)} = 0 <= s && s <= p && p <= e && frame(in, s, p).c == 10 && e - p < frame(in, s, p).a ==> frame(in, s, e) == qmk(10, frame(in, s, p).a - (e - p), frame(in, s, p).b) by e
lemma fbinend(in [int]int, s int, p int, e int) {frame(in, s, p), frame(in, s, e)} = 0 <= s && s <= p && frame(in, s, p).c == 10 && frame(in, s, p).a >= 1 && e == p + frame(in, s, p).a ==> frame(in, s, e) == qmk(3, 1, frame(in, s, p).b)
lemma fv1(in [int]int, s int, p int) {frame(in, s, p)} = 0 <= s && p == s + 1 && in[s] == 86 ==> frame(in, s, p) == qmk(5, 0, 0)
lemma fv2(in [int]int, s int, p int) {frame(in, s, p)} = 0 <= s && p == s + 2 && in[s] == 86 && in[s+1] == 65 ==> frame(in, s, s + 1) == qmk(5, 0, 0) && frame(in, s, p) == qmk(6, 0, 0)
lemma fva(in [int]int, s int, p int) {frame(in, s, p)} = 0 <= s && p == s + 4 && in[s] == 86 && in[s+1] == 65 && in[s+2] == 32 && digit(in[s+3]) ==> frame(in, s, s + 2) == qmk(6, 0, 0) && frame(in, s, p) == qmk(7, s + 3, 0)

// the stream grew from a to b
lemma dspl(b [int]int, a [int]int, s int, p int) {dval(b, s, p), uf("spl", bool, b, a)} = uf("spl", bool, b, a) && 0 <= s && (forall j {b[j]} :: s <= j && j < p ==> a[j] == b[j]) ==> dval(b, s, p) == dval(a, s, p) by p
lemma fspl(b [int]int, a [int]int, s int, p int) {frame(b, s, p), uf("spl", bool, b, a)} = uf("spl", bool, b, a) && 0 <= s && (forall j {b[j]} :: 0 <= j && j < p ==> a[j] == b[j]) ==> frame(b, s, p) == frame(a, s, p) && (frame(b, s, p).c == 7 ==> s <= frame(b, s, p).a) by p

// the stream the reader consumes; rend is the position of the end of the bytes taken in so far, so that unread data starts at
// rend - len(data); the current reply starts at rs, its text at rb and its value at rbn
ghost rin(*responseReader) [int]int
ghost rend(*responseReader) int
ghost rs(*responseReader) int
ghost rb(*responseReader) int
ghost rbn(*responseReader) int

pred rq(r *responseReader, n int) Q = frame(rin(r), rs(r), rend(r) - n)

pred textat(r *responseReader, s int, b int, te int) bool = s <= te && b >= 0 && len(r.currentCmd.responseData) == b + te - s
  && (forall p {rin(r)[p]} :: s <= p && p < te ==> r.currentCmd.responseData[b + p - s] == rin(r)[p])
pred textto(r *responseReader, te int) bool = textat(r, rs(r), rb(r), te)

pred apart(r *responseReader, data []byte) bool = (len(data) > 0 ==> arr(data) != arr(r.tmpData) && arr(data) != arr(r.currentCmd.responseData) && (arr(r.currentBinary) != nil ==> arr(data) != arr(r.currentBinary)))
  && arr(r.tmpData) != arr(r.currentCmd.responseData) && (arr(r.currentBinary) != nil ==> arr(r.currentBinary) != arr(r.currentCmd.responseData) && arr(r.currentBinary) != arr(r.tmpData))

pred rview(r *responseReader, data []byte) bool = forall p {rin(r)[p]} :: rend(r) - len(data) <= p && p < rend(r) ==> data[p - rend(r) + len(data)] == rin(r)[p]

// the declared length, and how much of the value was taken
pred rnum(r *responseReader, n int) int = rq(r, n).c == 7 ? dval(rin(r), rq(r, n).a, rend(r) - n) : rq(r, n).b
pred rgot(r *responseReader, n int) int = rq(r, n).b + 2 - rq(r, n).a

// the reader's state when n bytes of the data are left
pred rinv(r *responseReader, n int) bool = r.currentCmd != nil && r.lastErr == nil && len(r.remainingData) == 0 && 0 <= n && 0 <= rs(r) && rs(r) <= rend(r) - n
  && (r.state == 1 ==> rs(r) == rend(r) - n)
  && (r.state == 2 ==> rq(r, n).c == 2 || n > 0 && (rq(r, n).c == 1 && rin(r)[rend(r) - n] != 86 || rq(r, n).c == 5 && rin(r)[rend(r) - n] != 65))
  && (r.state == 8 ==> rq(r, n).c == 8 || n > 0 && rq(r, n).c == 7 && !digit(rin(r)[rend(r) - n]) && rnum(r, n) <= 1073741824)
  && (r.state != 2 && r.state != 8 ==> r.state == rq(r, n).c && r.state != 3 && r.state != 0)
  && len(r.currentCmd.responseBinaries) == rbn(r)
  && textto(r, r.state == 10 ? rend(r) - n - rgot(r, n) : rend(r) - n)
  && (r.state == 7 ==> rs(r) <= rq(r, n).a && len(r.tmpData) == rend(r) - n - rq(r, n).a && len(r.tmpData) >= 1
        && (forall p {rin(r)[p]} :: rq(r, n).a <= p && p < rend(r) - n ==> r.tmpData[p - rq(r, n).a] == rin(r)[p] && digit(rin(r)[p])))
  && (r.state == 8 || r.state == 9 ==> r.dataLen == rnum(r, n) + 2 && r.currentIndex == 0)
  && (r.state == 8 || r.state == 9 || r.state == 10 ==> 0 <= rnum(r, n) && rnum(r, n) <= 1073741824 && len(r.currentBinary) == rnum(r, n))
  && (r.state == 10 ==> r.dataLen == rq(r, n).a && 1 <= rq(r, n).a && rq(r, n).a <= rq(r, n).b + 2
        && (rgot(r, n) < rq(r, n).b ? r.currentIndex == rgot(r, n) : r.currentIndex >= rq(r, n).b)
        && (forall p {rin(r)[p]} :: rend(r) - n - rgot(r, n) <= p && p < rend(r) - n && p < rend(r) - n - rgot(r, n) + rq(r, n).b ==> r.currentBinary[p - (rend(r) - n - rgot(r, n))] == rin(r)[p]))

// a complete reply: its text, and its value if it has one, are exactly the bytes of the stream
// the reply that starts at s ends at e
pred rreply(r *responseReader, s int, b int, bn int, e int) bool = r.currentCmd != nil && 0 <= s && s < e && frame(rin(r), s, e).c == 3
  && textat(r, s, b, frame(rin(r), s, e).a == 1 ? e - frame(rin(r), s, e).b - 2 : e)
  && len(r.currentCmd.responseBinaries) == bn + (frame(rin(r), s, e).a == 1 ? 1 : 0)
  && (frame(rin(r), s, e).a == 1 ==> len(r.currentCmd.responseBinaries[bn]) == frame(rin(r), s, e).b
        && (forall p {rin(r)[p]} :: e - frame(rin(r), s, e).b - 2 <= p && p < e - 2 ==> r.currentCmd.responseBinaries[bn][p - (e - frame(rin(r), s, e).b - 2)] == rin(r)[p]))
pred rdone(r *responseReader, n int) bool = rreply(r, rs(r), rb(r), rbn(r), rend(r) - n)

pred rpre(r *responseReader, data []byte) bool = rinv(r, len(data)) && rview(r, data) && apart(r, data)
pred suffix(s []byte, data []byte) bool = len(s) <= len(data) && (len(s) > 0 ==> arr(s) == arr(data) && off(s) == off(data) + len(data) - len(s))
pred sepb(r *responseReader) bool = arr(r.currentBinary) != nil ==> arr(r.currentBinary) != arr(r.tmpData)
pred rpost(r *responseReader, data []byte, rest []byte) bool =
     sepb(r) &&
     (r.state != 3 ==> rinv(r, len(rest)) && suffix(rest, data) && apart(r, data))
  && (r.state == 3 && r.lastErr == nil ==> rdone(r, len(r.remainingData)) && suffix(r.remainingData, data) && apart(r, data))
  && (r.state == 3 ==> len(rest) == 0)
  && (r.state == 3 && r.lastErr != nil ==> rq(r, 0).c == 0 && is(ErrBrokenPipe, r.lastErr))
pred rmeas(r *responseReader, data []byte) int = 2 * len(data) + (r.state == 5 || r.state == 7 ? 1 : 0)

// the arrays written are the old ones or new ones
pred grown(r *responseReader, t ref, b ref, d ref, v ref) bool = (fresh(r.tmpData) || arr(r.tmpData) == t) && (fresh(r.currentBinary) || arr(r.currentBinary) == b || arr(r.currentBinary) == nil)
  && (fresh(r.currentCmd.responseData) || arr(r.currentCmd.responseData) == d) && (fresh(r.currentCmd.responseBinaries) || arr(r.currentCmd.responseBinaries) == v)

func (*responseReader).handleStateSimpleCommand(r, data)(rest)
  prop C03 C05
  requires rpre(r, data) && r.state == 2 && len(data) > 0
  modifies r.state, r.tmpData, r.dataLen, r.currentBinary, r.currentIndex, r.lastErr, r.remainingData, content(r.tmpData), content(r.currentBinary)
  modifies r.currentCmd.responseData, content(r.currentCmd.responseData), r.currentCmd.responseBinaries, content(r.currentCmd.responseBinaries)
  ensures @C03.C05 rpost(r, data, rest)
  ensures grown(r, old(arr(r.tmpData)), old(arr(r.currentBinary)), old(arr(r.currentCmd.responseData)), old(arr(r.currentCmd.responseBinaries)))
  ensures @C05 len(data) > 0 ==> rmeas(r, rest) < old(rmeas(r, data))
  let p0 = rend(r) - len(data)
  inv $index >= 0 ==> frame(rin(r), rs(r), p0 + $index + 1) == qmk(2, 0, 0)

func (*responseReader).handleFindFirstNum(r, data)(rest)
  prop C03 C05
  requires rpre(r, data) && r.state == 6 && len(data) > 0
  modifies r.state, r.tmpData, r.dataLen, r.currentBinary, r.currentIndex, r.lastErr, r.remainingData, content(r.tmpData), content(r.currentBinary)
  modifies r.currentCmd.responseData, content(r.currentCmd.responseData), r.currentCmd.responseBinaries, content(r.currentCmd.responseBinaries)
  ensures @C03.C05 rpost(r, data, rest)
  ensures grown(r, old(arr(r.tmpData)), old(arr(r.currentBinary)), old(arr(r.currentCmd.responseData)), old(arr(r.currentCmd.responseBinaries)))
  ensures @C05 len(data) > 0 ==> rmeas(r, rest) < old(rmeas(r, data))
  let p0 = rend(r) - len(data)
  inv frame(rin(r), rs(r), p0 + $index + 1) == frame(rin(r), rs(r), p0)

func (*responseReader).handleGetNum(r, data)(rest)
  prop C03 C05
  requires rpre(r, data) && r.state == 7
  modifies r.state, r.tmpData, r.dataLen, r.currentBinary, r.currentIndex, r.lastErr, r.remainingData, content(r.tmpData)
  modifies r.currentCmd.responseData, content(r.currentCmd.responseData)
  ensures @C03.C05 rpost(r, data, rest)
  ensures grown(r, old(arr(r.tmpData)), old(arr(r.currentBinary)), old(arr(r.currentCmd.responseData)), old(arr(r.currentCmd.responseBinaries)))
  ensures @C05 len(data) > 0 ==> rmeas(r, rest) < old(rmeas(r, data))
  let p0 = rend(r) - len(data)
  inv frame(rin(r), rs(r), p0 + $index + 1) == frame(rin(r), rs(r), p0)
  inv len(r.tmpData) == p0 + $index + 1 - frame(rin(r), rs(r), p0).a
  inv forall p {rin(r)[p]} :: frame(rin(r), rs(r), p0).a <= p && p < p0 + $index + 1 ==> r.tmpData[p - frame(rin(r), rs(r), p0).a] == rin(r)[p] && digit(rin(r)[p])
  inv textto(r, p0)
  inv fresh(r.tmpData) || arr(r.tmpData) == old(arr(r.tmpData))
  inv apart(r, data)
  inv r.dataLen == dval(rin(r), frame(rin(r), rs(r), p0).a, frame(rin(r), rs(r), p0).a + $i) && 1 <= $i
  inv 0 <= $i && $i < len(r.tmpData) ==> r.tmpData[$i] == rin(r)[frame(rin(r), rs(r), p0).a + $i] && digit(rin(r)[frame(rin(r), rs(r), p0).a + $i])
  inv r.dataLen <= 1073741824

func (*responseReader).handleFindCRForVA(r, data)(rest)
  prop C03 C05
  requires rpre(r, data) && r.state == 8 && len(data) > 0
  modifies r.state, r.tmpData, r.dataLen, r.currentBinary, r.currentIndex, r.lastErr, r.remainingData, content(r.tmpData), content(r.currentBinary)
  modifies r.currentCmd.responseData, content(r.currentCmd.responseData), r.currentCmd.responseBinaries, content(r.currentCmd.responseBinaries)
  ensures @C03.C05 rpost(r, data, rest)
  ensures grown(r, old(arr(r.tmpData)), old(arr(r.currentBinary)), old(arr(r.currentCmd.responseData)), old(arr(r.currentCmd.responseBinaries)))
  ensures @C05 len(data) > 0 ==> rmeas(r, rest) < old(rmeas(r, data))
  let p0 = rend(r) - len(data)
  inv $index >= 0 ==> frame(rin(r), rs(r), p0 + $index + 1) == qmk(8, 0, rnum(r, len(data)))

func (*responseReader).handleBinaryData(r, data)(rest)
  prop C03 C05
  requires rpre(r, data) && r.state == 10
  modifies r.state, r.tmpData, r.dataLen, r.currentBinary, r.currentIndex, r.lastErr, r.remainingData, content(r.tmpData), content(r.currentBinary)
  modifies r.currentCmd.responseData, content(r.currentCmd.responseData), r.currentCmd.responseBinaries, content(r.currentCmd.responseBinaries)
  ensures @C03.C05 rpost(r, data, rest)
  ensures grown(r, old(arr(r.tmpData)), old(arr(r.currentBinary)), old(arr(r.currentCmd.responseData)), old(arr(r.currentCmd.responseBinaries)))
  ensures @C05 len(data) > 0 ==> rmeas(r, rest) < old(rmeas(r, data))

func (*responseReader).handleStartWithV(r, data)(rest)
  prop C03 C05
  requires rpre(r, data) && r.state == 1 && len(data) > 0 && data[0] == 86
  modifies r.state, r.tmpData, r.dataLen, r.currentBinary, r.currentIndex, r.lastErr, r.remainingData, content(r.tmpData), content(r.currentBinary)
  modifies r.currentCmd.responseData, content(r.currentCmd.responseData), r.currentCmd.responseBinaries, content(r.currentCmd.responseBinaries)
  ensures @C03.C05 rpost(r, data, rest)
  ensures grown(r, old(arr(r.tmpData)), old(arr(r.currentBinary)), old(arr(r.currentCmd.responseData)), old(arr(r.currentCmd.responseBinaries)))
  ensures @C05 len(data) > 0 ==> rmeas(r, rest) < old(rmeas(r, data))

func (*responseReader).handleStateInit(r, data)(rest)
  prop C03 C05
  requires rpre(r, data) && r.state == 1 && len(data) > 0
  modifies r.state, r.tmpData, r.dataLen, r.currentBinary, r.currentIndex, r.lastErr, r.remainingData, content(r.tmpData), content(r.currentBinary)
  modifies r.currentCmd.responseData, content(r.currentCmd.responseData), r.currentCmd.responseBinaries, content(r.currentCmd.responseBinaries)
  ensures @C03.C05 rpost(r, data, rest)
  ensures grown(r, old(arr(r.tmpData)), old(arr(r.currentBinary)), old(arr(r.currentCmd.responseData)), old(arr(r.currentCmd.responseBinaries)))
  ensures @C05 len(data) > 0 ==> rmeas(r, rest) < old(rmeas(r, data))

func (*responseReader).recvInLoop(r, data)(rest)
  prop C03 C05
  requires rpre(r, data) && true && len(data) > 0
  modifies r.state, r.tmpData, r.dataLen, r.currentBinary, r.currentIndex, r.lastErr, r.remainingData, content(r.tmpData), content(r.currentBinary)
  modifies r.currentCmd.responseData, content(r.currentCmd.responseData), r.currentCmd.responseBinaries, content(r.currentCmd.responseBinaries)
  ensures @C03.C05 rpost(r, data, rest)
  ensures grown(r, old(arr(r.tmpData)), old(arr(r.currentBinary)), old(arr(r.currentCmd.responseData)), old(arr(r.currentCmd.responseBinaries)))
  ensures @C05 len(data) > 0 ==> rmeas(r, rest) < old(rmeas(r, data))

// what is known of the reader between calls: then rend is the position of the first byte that was not consumed
pred rahead(r *responseReader, data []byte) bool = forall p {rin(r)[p]} :: rend(r) <= p && p < rend(r) + len(data) ==> data[p - rend(r)] == rin(r)[p]
pred rst(r *responseReader) bool = r.currentCmd != nil && 0 <= rs(r) && sepb(r)
  && (r.state != 3 || r.lastErr == nil ==> rahead(r, r.remainingData) && apart(r, r.remainingData))
  && (r.state == 3 && r.lastErr == nil ==> rdone(r, 0))
  && (r.state == 3 && r.lastErr != nil ==> frame(rin(r), rs(r), rend(r)).c == 0 && is(ErrBrokenPipe, r.lastErr))
  && (r.state == 1 ==> r.lastErr == nil && rs(r) == rend(r) && rb(r) == len(r.currentCmd.responseData) && rbn(r) == len(r.currentCmd.responseBinaries))
  && (r.state != 1 && r.state != 3 ==> rinv(r, 0))

func (*responseReader).recv(r, data)
  prop C03 C05
  light C10 C13
  requires rst(r) && r.state != 3 && len(r.remainingData) == 0 && apart(r, data)
  modifies r.state, r.tmpData, r.dataLen, r.currentBinary, r.currentIndex, r.lastErr, r.remainingData, content(r.tmpData), content(r.currentBinary)
  modifies r.currentCmd.responseData, content(r.currentCmd.responseData), r.currentCmd.responseBinaries, content(r.currentCmd.responseBinaries), rin(r), rend(r)
  atentry rin(r) := splice(rin(r), rend(r), data)
  atentry rend(r) := rend(r) + len(data)
  atexit rend(r) := r.state == 3 && r.lastErr == nil ? rend(r) - len(r.remainingData) : rend(r)
  ensures @C03.C05 rst(r)
  ensures grown(r, old(arr(r.tmpData)), old(arr(r.currentBinary)), old(arr(r.currentCmd.responseData)), old(arr(r.currentCmd.responseBinaries)))
  // nothing is lost, reordered or made up: what was consumed and what is kept is what was there, followed by data
  ensures @C03 r.state != 3 || r.lastErr == nil ==> rend(r) + len(r.remainingData) == old(rend(r)) + len(data) && (forall i {rin(r)[i]} :: 0 <= i && i < old(rend(r)) ==> rin(r)[i] == old(rin(r))[i])
    && (forall i {data[i]} :: 0 <= i && i < len(data) ==> rin(r)[old(rend(r)) + i] == old(data[i]))
  inv r.state != 3 ==> rinv(r, len($data))
  inv r.state != 3 ==> suffix($data, data)
  inv r.state != 3 ==> apart(r, data)
  inv r.state == 3 && r.lastErr == nil ==> rdone(r, len(r.remainingData))
  inv r.state == 3 && r.lastErr == nil ==> suffix(r.remainingData, data)
  inv r.state == 3 && r.lastErr == nil ==> apart(r, data)
  inv r.state == 3 ==> len($data) == 0
  inv r.state == 3 && r.lastErr != nil ==> rq(r, 0).c == 0 && is(ErrBrokenPipe, r.lastErr)
  inv sepb(r)
  inv rview(r, data)
  inv grown(r, old(arr(r.tmpData)), old(arr(r.currentBinary)), old(arr(r.currentCmd.responseData)), old(arr(r.currentCmd.responseBinaries)))
  decreases rmeas(r, $data)

func (*responseReader).readNextData(r)(ok)
  prop C03 C05
  light C10 C13
  requires rst(r)
  modifies r.state, r.tmpData, r.dataLen, r.currentBinary, r.currentIndex, r.lastErr, r.remainingData, content(r.tmpData), content(r.currentBinary)
  modifies r.currentCmd.responseData, content(r.currentCmd.responseData), r.currentCmd.responseBinaries, content(r.currentCmd.responseBinaries), rin(r), rend(r), rs(r), rb(r), rbn(r)
  atexit rs(r) := ok && r.lastErr == nil ? rend(r) : rs(r)
  atexit rb(r) := ok && r.lastErr == nil ? len(r.currentCmd.responseData) : rb(r)
  atexit rbn(r) := ok && r.lastErr == nil ? len(r.currentCmd.responseBinaries) : rbn(r)
  ensures @C03.C05 r.lastErr == nil ==> rst(r)
  ensures @C03 sepb(r)
  ensures @C03 ok && r.lastErr == nil ==> r.state == 1 && rreply(r, old(rs(r)), old(rb(r)), old(rbn(r)), rs(r))
  ensures @C05 !ok ==> r.lastErr == nil && r.state != 3 && len(r.remainingData) == 0
  ensures @C03 !ok ==> rs(r) == old(rs(r)) && rb(r) == old(rb(r)) && rbn(r) == old(rbn(r))
  ensures @C05 ok && r.lastErr != nil ==> frame(rin(r), rs(r), rend(r)).c == 0 && is(ErrBrokenPipe, r.lastErr)
  ensures grown(r, old(arr(r.tmpData)), old(arr(r.currentBinary)), old(arr(r.currentCmd.responseData)), old(arr(r.currentCmd.responseBinaries)))
  inv rst(r)
  inv grown(r, old(arr(r.tmpData)), old(arr(r.currentBinary)), old(arr(r.currentCmd.responseData)), old(arr(r.currentCmd.responseBinaries)))
  inv rs(r) == old(rs(r)) && rb(r) == old(rb(r)) && rbn(r) == old(rbn(r))
  decreases r.state == 3 ? 0 : len(r.remainingData) > 0 ? 2 : 1

// between commands
pred ridle(r *responseReader) bool = r.state == 1 && r.lastErr == nil && 0 <= rs(r) && rs(r) == rend(r) && rahead(r, r.remainingData)
  && (len(r.remainingData) > 0 ==> arr(r.remainingData) != arr(r.tmpData) && (arr(r.currentBinary) != nil ==> arr(r.remainingData) != arr(r.currentBinary)))
  && (arr(r.currentBinary) != nil ==> arr(r.currentBinary) != arr(r.tmpData))

func (*responseReader).setCurrentCommand(r, cmd)
  prop C03
  requires cmd != nil ==> ridle(r)
  // the buffers of a published batch belong to it alone (C16), not to the reader
  assume cmd != nil ==> (len(r.remainingData) > 0 ==> arr(r.remainingData) != arr(cmd.responseData)) && arr(r.tmpData) != arr(cmd.responseData) && (arr(r.currentBinary) != nil ==> arr(r.currentBinary) != arr(cmd.responseData))
  assume cmd != nil ==> arr(cmd.responseData) != rbuf(r)
  modifies r.currentCmd, rb(r), rbn(r)
  atexit rb(r) := cmd == nil ? 0 : len(cmd.responseData)
  atexit rbn(r) := cmd == nil ? 0 : len(cmd.responseBinaries)
  ensures @C03 r.currentCmd == cmd
  ensures @C03 cmd != nil ==> rst(r)

func (*responseReader).reset(r)
  prop C03 C13
  modifies r.tmpData, r.state, r.lastErr, r.remainingData, rs(r), rend(r)
  atexit rs(r) := 0
  atexit rend(r) := 0
  ensures @C03.C13 r.state == 1 && r.lastErr == nil && len(r.remainingData) == 0
  ensures @C03 arr(r.tmpData) == old(arr(r.tmpData))
  ensures @C03 (arr(r.currentBinary) != nil ==> arr(r.currentBinary) != old(arr(r.tmpData))) ==> ridle(r)

func (*responseReader).hasError(r)(e)
  prop C03 C05
  modifies nothing
  ensures @C05 e == r.lastErr

func newResponseReader()(r)
  prop C03
  ensures r != nil && fresh(r) && ridle(r) && fresh(r.tmpData)
