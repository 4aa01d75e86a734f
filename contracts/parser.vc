package memcache

// ---- the flags of a reply, one byte at a time
// st 0: a flag may start; 1: looking for the number of a 'c'; 2: in that number; 3: the line is complete; 4: after CR;
// 5: looking for the size of a value; 6: in the size; 9: not a reply
datatype FL = fmk(st int, w int, x int, z int, cas int)
pred f0(q FL, c int) FL =
    c == 87 ? fmk(0, 1, q.x, q.z, q.cas)
  : c == 88 ? fmk(0, q.w, 1, q.z, q.cas)
  : c == 90 ? fmk(0, q.w, q.x, 1, q.cas)
  : c == 99 ? fmk(1, q.w, q.x, q.z, q.cas)
  : c == 13 ? fmk(4, q.w, q.x, q.z, q.cas)
  : fmk(0, q.w, q.x, q.z, q.cas)
pred fstep(q FL, c int) FL =
    q.st == 0 ? f0(q, c)
  : q.st == 1 ? (digit(c) ? fmk(2, q.w, q.x, q.z, c - 48) : c == 13 ? fmk(9, 0, 0, 0, 0) : q)
  : q.st == 2 ? (digit(c) ? fmk(2, q.w, q.x, q.z, wrap(wrap(q.cas * 10) + (c - 48))) : f0(q, c))
  : q.st == 4 ? (c == 10 ? fmk(3, q.w, q.x, q.z, q.cas) : f0(q, c))
  : q.st == 5 ? (digit(c) ? fmk(6, 0, 0, 0, 0) : c == 13 ? fmk(9, 0, 0, 0, 0) : q)
  : q.st == 6 ? (digit(c) ? q : f0(q, c))
  : q
rec fl(in [int]int, st int, s int, p int) FL #2 = p <= s ? fmk(st, 0, 0, 0, 0) : fstep(fl(in, st, s, p - 1), in[p-1])

// a failure or a complete line stays
lemma flstop(in [int]int, st int, s int, p int, e int) {fl(in, st, s, p), fl(in, st, s, e)} = 0 <= s && p <= e && s <= p && (fl(in, st, s, p).st == 9 || fl(in, st, s, p).st == 3) ==> fl(in, st, s, e) == fl(in, st, s, p) by e

lemma flerr(in [int]int, st int, s int, p int, e int) {fl(in, st, s, p), fl(in, st, s, e)} = 0 <= s && s <= p && p < e && fstep(fl(in, st, s, p), in[p]).st == 9 ==> fl(in, st, s, p + 1).st == 9 && fl(in, st, s, e).st == 9
lemma flbits(in [int]int, st int, s int, p int) {fl(in, st, s, p)} = 0 <= s ==> 0 <= fl(in, st, s, p).w && fl(in, st, s, p).w <= 1 && 0 <= fl(in, st, s, p).x && fl(in, st, s, p).x <= 1 && 0 <= fl(in, st, s, p).z && fl(in, st, s, p).z <= 1 by p
lemma flva(in [int]int, s int, k int, p int) {fl(in, 5, s, p), fl(in, 0, k, p)} = 0 <= s && s <= k && fl(in, 5, s, k) == fmk(6, 0, 0, 0, 0) && !digit(in[k]) ==> k < p ==> fl(in, 5, s, p) == fl(in, 0, k, p) by p

// a number: st 1: looking for it; 2: in it; 8: behind it; 9: none on this line
datatype NM = nmk(st int, v int)
pred nstep(q NM, c int) NM = q.st == 1 ? (digit(c) ? nmk(2, c - 48) : c == 13 ? nmk(9, 0) : q) : q.st == 2 ? (digit(c) ? nmk(2, wrap(wrap(q.v * 10) + (c - 48))) : nmk(8, q.v)) : q
rec fn(in [int]int, s int, p int) NM #2 = p <= s ? nmk(1, 0) : nstep(fn(in, s, p - 1), in[p-1])
lemma fnflag(in [int]int, s int, k int, p int) {fl(in, 0, s, p), fn(in, k, p)} = 0 <= s && s <= k && k <= p && fl(in, 0, s, k).st == 1 ==>
     (fn(in, k, p).st == 1 ==> fl(in, 0, s, p) == fl(in, 0, s, k))
  && (fn(in, k, p).st == 2 ==> fl(in, 0, s, p) == fmk(2, fl(in, 0, s, k).w, fl(in, 0, s, k).x, fl(in, 0, s, k).z, fn(in, k, p).v))
  && (fn(in, k, p).st == 9 ==> fl(in, 0, s, p).st == 9) by p
lemma fnva(in [int]int, s int, p int) {fl(in, 5, s, p), fn(in, s, p)} = 0 <= s ==>
     (fn(in, s, p).st == 1 ==> fl(in, 5, s, p) == fmk(5, 0, 0, 0, 0)) && (fn(in, s, p).st == 2 ==> fl(in, 5, s, p) == fmk(6, 0, 0, 0, 0)) && (fn(in, s, p).st == 9 ==> fl(in, 5, s, p).st == 9) by p
lemma fnstop(in [int]int, s int, p int, e int) {fn(in, s, p), fn(in, s, e)} = 0 <= s && s <= p && p < e && nstep(fn(in, s, p), in[p]).st == 9 ==> fn(in, s, e).st == 9 by e

// the first line end at or after s ends at e
pred eol(in [int]int, s int, e int) bool = s + 2 <= e && in[e-2] == 13 && in[e-1] == 10 && (forall j {in[j]} :: s <= j && j < e - 2 ==> !(in[j] == 13 && in[j+1] == 10))
pred noeol(in [int]int, s int, e int) bool = forall j {in[j]} :: s <= j && j < e - 1 ==> !(in[j] == 13 && in[j+1] == 10)

func (*parser).findCRLF(p, index)(r)
  prop C04 C05
  requires 0 <= index && index <= 1099511627776
  modifies nothing
  let a = content(p.data)
  let o = off(p.data)
  ensures r < 0 ==> noeol(a, o + index, o + len(p.data))
  ensures r >= 0 ==> r <= len(p.data) && eol(a, o + index, o + r)
  inv forall j {a[j]} :: o + index <= j && j < o + $i - 1 ==> !(a[j] == 13 && a[j+1] == 10)

func findNumber(data, index)(num, r)
  prop C04 C05
  requires 0 <= index && index <= len(data)
  modifies nothing
  let a = content(data)
  let o = off(data)
  ensures @C04.C05 r >= 0 ==> index < r && r <= len(data)
  ensures @C04 r >= 0 ==> fn(a, o + index, o + r) == nmk(2, num) && (r == len(data) || !digit(data[r]))
  ensures @C04 r < 0 ==> fn(a, o + index, o + len(data)).st == 1 || fn(a, o + index, o + len(data)).st == 9
  inv index <= $i && $i <= len(data)
  inv index < $i
  inv fn(a, o + index, o + $i) == nmk(1, 0)
  inv fn(a, o + index, o + $i) == nmk(2, $num)

func (*parser).parseMGetFlags(p, index, resp)(r, err)
  prop C04 C05
  requires resp != nil && 0 <= index && index <= len(p.data)
  modifies *resp
  let a = content(p.data)
  let o = off(p.data)
  ensures @C04.C05 err == nil ==> index + 2 <= r && r <= len(p.data)
  ensures @C04 err == nil ==> fl(a, 0, o + index, o + r).st == 3 && fl(a, 0, o + index, o + r - 1).st == 4
  ensures @C04 err == nil ==> resp.Flags == fl(a, 0, o + index, o + r).w + 2 * fl(a, 0, o + index, o + r).x + 4 * fl(a, 0, o + index, o + r).z
  ensures @C04 err == nil && old(resp.CAS) == 0 ==> resp.CAS == fl(a, 0, o + index, o + r).cas
  ensures @C04 err != nil ==> fl(a, 0, o + index, o + len(p.data)).st != 3
  ensures @C04 resp.Type == old(resp.Type) && same(resp.Data)
  inv 0 <= $i && $i <= len(p.data)
  inv index <= $i && fl(a, 0, o + index, o + $i + 1) == fstep(fl(a, 0, o + index, o + $i), a[o + $i])
  inv fl(a, 0, o + index, o + $i).st == 0 || fl(a, 0, o + index, o + $i).st == 2 || fl(a, 0, o + index, o + $i).st == 4
  inv fl(a, 0, o + index, o + $i).st == 2 ==> $i >= len(p.data) || !digit(a[o + $i])
  inv fl(a, 0, o + index, o + $i).st == 4 ==> $i < len(p.data) && a[o + $i] != 10
  inv $flags == fl(a, 0, o + index, o + $i).w + 2 * fl(a, 0, o + index, o + $i).x + 4 * fl(a, 0, o + index, o + $i).z
  inv old(resp.CAS) == 0 ==> resp.CAS == fl(a, 0, o + index, o + $i).cas


// ---- one reply
pred consumed(p *parser, a [int]int, e int) bool = content(p.data) == a && off(p.data) + len(p.data) == e
pred pairat(a [int]int, o int, x int, y int) bool = a[o] == x && a[o+1] == y
pred servpfx(a [int]int, o int) bool = a[o] == 83 && a[o+1] == 69 && a[o+2] == 82 && a[o+3] == 86 && a[o+4] == 69 && a[o+5] == 82 && a[o+6] == 95 && a[o+7] == 69 && a[o+8] == 82 && a[o+9] == 82 && a[o+10] == 79 && a[o+11] == 82
pred clipfx(a [int]int, o int) bool = a[o] == 67 && a[o+1] == 76 && a[o+2] == 73 && a[o+3] == 69 && a[o+4] == 78 && a[o+5] == 84 && a[o+6] == 95 && a[o+7] == 69 && a[o+8] == 82 && a[o+9] == 82 && a[o+10] == 79 && a[o+11] == 82
// the text of an error line that ends at e
pred msgat(m str, a [int]int, o int, e int) bool = m == bytes(a, o + 13, max(0, e - o - 15))
// what a reply that is not an answer to the command turns into
pred errreply(err error, a [int]int, o int, n int, e int) bool =
   err != nil
   && (n > 12 && servpfx(a, o) && !noeol(a, o + 12, o + n) ==> is(ErrServerError, err) && eol(a, o + 12, e) && msgat(as(ErrServerError, err).Message, a, o, e))
   && (n > 12 && clipfx(a, o) && !noeol(a, o + 12, o + n) ==> is(ErrClientError, err) && eol(a, o + 12, e) && msgat(as(ErrClientError, err).Message, a, o, e))
   && (is(ErrServerError, err) ==> n > 12 && servpfx(a, o)) && (is(ErrClientError, err) ==> n > 12 && clipfx(a, o))

func (*parser).readError(p, errType)(err)
  prop C04 C05
  requires len(p.data) > 12
  modifies p.data
  let a = content(p.data)
  let o = off(p.data)
  let n = len(p.data)
  ensures @C04.C05 consumed(p, a, o + n) && o <= off(p.data) && err != nil
  ensures @C04 noeol(a, o + 12, o + n) ==> off(p.data) == o && !is(ErrServerError, err) && !is(ErrClientError, err)
  ensures @C04 !noeol(a, o + 12, o + n) ==> eol(a, o + 12, off(p.data))
  ensures @C04 !noeol(a, o + 12, o + n) && errType == errorTypeServer ==> is(ErrServerError, err) && msgat(as(ErrServerError, err).Message, a, o, off(p.data))
  ensures @C04 !noeol(a, o + 12, o + n) && errType == errorTypeClient ==> is(ErrClientError, err) && msgat(as(ErrClientError, err).Message, a, o, off(p.data))

func (*parser).isErrorPrefix(p)(r)
  prop C04 C05
  requires len(p.data) >= 2
  modifies nothing
  let a = content(p.data)
  let o = off(p.data)
  ensures @C04.C05 r == errorTypeServer || r == errorTypeClient ==> len(p.data) > 12
  ensures @C04.C05 r == errorTypeNone || r == errorTypeServer || r == errorTypeClient
  ensures @C04 r == errorTypeServer <==> len(p.data) > 12 && servpfx(a, o)
  ensures @C04 r == errorTypeClient <==> len(p.data) > 12 && clipfx(a, o)

func (*parser).readMGet(p)(resp, err)
  prop C04 C05
  modifies p.data, p.binaries
  let a = content(p.data)
  let o = off(p.data)
  let n = len(p.data)
  let nb = len(p.binaries)
  let b0 = p.binaries[0]
  ensures @C04.C05 consumed(p, a, o + n) && o <= off(p.data)
  ensures @C04 err != nil ==> resp == zero(MGetResponse)
  ensures @C04 n < 4 ==> err != nil
  ensures @C04 n >= 4 && pairat(a, o, 69, 78) ==> (err == nil <==> !noeol(a, o + 2, o + n))
  ensures @C04 err == nil && pairat(a, o, 69, 78) ==> resp.Type == MGetResponseTypeEN && resp.Flags == 0 && resp.CAS == 0 && len(resp.Data) == 0 && eol(a, o + 2, off(p.data))
  ensures @C04 n >= 4 && pairat(a, o, 72, 68) && fl(a, 0, o + 2, o + n).st == 3 ==> err == nil
  ensures @C04 err == nil && pairat(a, o, 72, 68) ==> resp.Type == MGetResponseTypeHD && fl(a, 0, o + 2, off(p.data) - 1).st == 4 && fl(a, 0, o + 2, off(p.data)).st == 3
  ensures @C04 err == nil && pairat(a, o, 72, 68) ==> len(resp.Data) == 0 && resp.CAS == fl(a, 0, o + 2, off(p.data)).cas && resp.Flags == fl(a, 0, o + 2, off(p.data)).w + 2 * fl(a, 0, o + 2, off(p.data)).x + 4 * fl(a, 0, o + 2, off(p.data)).z
  ensures @C04 n >= 4 && pairat(a, o, 86, 65) && fl(a, 5, o + 3, o + n).st == 3 && nb > 0 ==> err == nil
  ensures @C04 err == nil && pairat(a, o, 86, 65) ==> nb > 0 && resp.Type == MGetResponseTypeVA && fl(a, 5, o + 3, off(p.data) - 1).st == 4 && fl(a, 5, o + 3, off(p.data)).st == 3
  ensures @C04 err == nil && pairat(a, o, 86, 65) ==> resp.Data == b0 && len(p.binaries) == nb - 1 && arr(p.binaries) == old(arr(p.binaries)) && off(p.binaries) == old(off(p.binaries)) + 1
  ensures @C04 err == nil && pairat(a, o, 86, 65) ==> resp.CAS == fl(a, 5, o + 3, off(p.data)).cas && resp.Flags == fl(a, 5, o + 3, off(p.data)).w + 2 * fl(a, 5, o + 3, off(p.data)).x + 4 * fl(a, 5, o + 3, off(p.data)).z
  ensures @C04 err == nil ==> pairat(a, o, 69, 78) || pairat(a, o, 72, 68) || pairat(a, o, 86, 65)
  ensures @C04 !pairat(a, o, 69, 78) && !pairat(a, o, 72, 68) && !pairat(a, o, 86, 65) ==> errreply(err, a, o, n, off(p.data))
  ensures @C04 !(err == nil && pairat(a, o, 86, 65)) ==> same(p.binaries)

func (*parser).readMSet(p)(resp, err)
  prop C04 C05
  modifies p.data
  let a = content(p.data)
  let o = off(p.data)
  let n = len(p.data)
  ensures @C04.C05 consumed(p, a, o + n) && o <= off(p.data)
  ensures @C04 err != nil ==> resp.Type == 0
  ensures @C04 err == nil ==> n >= 4 && eol(a, o + 2, off(p.data))
  ensures @C04 err == nil <==> n >= 4 && !noeol(a, o + 2, o + n) && (pairat(a, o, 72, 68) || pairat(a, o, 78, 83) || pairat(a, o, 69, 88) || pairat(a, o, 78, 70))
  ensures @C04 err == nil && pairat(a, o, 72, 68) ==> resp.Type == MSetResponseTypeHD
  ensures @C04 err == nil && pairat(a, o, 78, 83) ==> resp.Type == MSetResponseTypeNS
  ensures @C04 err == nil && pairat(a, o, 69, 88) ==> resp.Type == MSetResponseTypeEX
  ensures @C04 err == nil && pairat(a, o, 78, 70) ==> resp.Type == MSetResponseTypeNF
  ensures @C04 err != nil ==> errreply(err, a, o, n, off(p.data))

func (*parser).readMDel(p)(resp, err)
  prop C04 C05
  modifies p.data
  let a = content(p.data)
  let o = off(p.data)
  let n = len(p.data)
  ensures @C04.C05 consumed(p, a, o + n) && o <= off(p.data)
  ensures @C04 err != nil ==> resp.Type == 0
  ensures @C04 err == nil ==> n >= 4 && eol(a, o + 2, off(p.data))
  ensures @C04 err == nil <==> n >= 4 && !noeol(a, o + 2, o + n) && (pairat(a, o, 72, 68) || pairat(a, o, 69, 88) || pairat(a, o, 78, 70))
  ensures @C04 err == nil && pairat(a, o, 72, 68) ==> resp.Type == MDelResponseTypeHD
  ensures @C04 err == nil && pairat(a, o, 69, 88) ==> resp.Type == MDelResponseTypeEX
  ensures @C04 err == nil && pairat(a, o, 78, 70) ==> resp.Type == MDelResponseTypeNF
  ensures @C04 err != nil ==> errreply(err, a, o, n, off(p.data))

pred verpfx(a [int]int, o int) bool = a[o] == 86 && a[o+1] == 69 && a[o+2] == 82 && a[o+3] == 83 && a[o+4] == 73 && a[o+5] == 79 && a[o+6] == 78
func (*parser).readVersion(p)(resp, err)
  prop C04 C05
  modifies p.data
  let a = content(p.data)
  let o = off(p.data)
  let n = len(p.data)
  ensures @C04.C05 consumed(p, a, o + n) && o <= off(p.data)
  ensures @C04 err != nil ==> len(resp.Version) == 0
  ensures @C04 err == nil <==> n >= 7 && verpfx(a, o) && !noeol(a, o + 7, o + n)
  ensures @C04 err == nil ==> eol(a, o + 7, off(p.data))
  ensures @C04 err == nil && a[o+7] == 32 && okchar(a[o+8]) && okchar(a[off(p.data)-3]) ==> resp.Version == bytes(a, o + 8, off(p.data) - o - 10)
  ensures @C04 !verpfx(a, o) ==> errreply(err, a, o, n, off(p.data))

func (*parser).readFlushAll(p)(err)
  prop C04 C05
  modifies p.data
  let a = content(p.data)
  let o = off(p.data)
  let n = len(p.data)
  ensures @C04.C05 consumed(p, a, o + n) && o <= off(p.data)
  ensures @C04 err == nil <==> n >= 2 && pairat(a, o, 79, 75) && !noeol(a, o + 2, o + n)
  ensures @C04 err == nil ==> eol(a, o + 2, off(p.data))
  ensures @C04 n >= 2 && err != nil ==> errreply(err, a, o, n, off(p.data))
