package memcache

// ---- ghost view of a batch: the bytes it stands for on the wire

ghost wlen(*commandListData) int
ghost wdat(*commandListData) [int]int
ghost nent(*commandListData) int
ghost ent(*commandListData) [int]*requestBinaryEntry
ghost wsum(*commandListData) [int]int
ghost ngets(*commandListData) int
ghost epos(*requestBinaryEntry) int
ghost eown(*requestBinaryEntry) *commandListData
ghost aown(ref) *commandListData

// batches of a builder
ghost nbat(*cmdBuilder) int
ghost bat(*cmdBuilder) [int]*commandListData
ghost bpos(*commandListData) int
ghost bown(*commandListData) *cmdBuilder

ghost poff(*commandListData) [int]int

pred entok(c *commandListData, i int) =
  ent(c)[i] != nil && eown(ent(c)[i]) == c && epos(ent(c)[i]) == i
  && 0 <= poff(c)[i] && poff(c)[i] <= ent(c)[i].offset && poff(c)[i+1] == ent(c)[i].offset && ent(c)[i].offset <= len(c.requestData)
  && wsum(c)[i+1] == wsum(c)[i] + len(ent(c)[i].data) && wsum(c)[i] >= 0 && wsum(c)[i] <= wsum(c)[i+1] && wsum(c)[i+1] <= wsum(c)[nent(c)]
  && aown(arr(ent(c)[i].data)) == c && arr(ent(c)[i].data) != arr(c.requestData)

pred wireok(c *commandListData) =
  c != nil && nent(c) >= 0 && aown(arr(c.requestData)) == c
  && c.requestBinaries == (nent(c) > 0 ? ent(c)[0] : nil)
  && poff(c)[0] == 0 && poff(c)[nent(c)] >= 0 && wsum(c)[0] == 0 && wsum(c)[nent(c)] >= 0
  && wlen(c) == len(c.requestData) + wsum(c)[nent(c)]
  && (forall i {ent(c)[i]} :: 0 <= i && i < nent(c) ==> entok(c, i))
  && (forall i {ent(c)[i].next} :: 0 <= i && i < nent(c) ==> ent(c)[i].next == (i + 1 < nent(c) ? ent(c)[i+1] : nil))
  && (forall i, p {ent(c)[i], wdat(c)[p]} :: 0 <= i && i < nent(c) && 0 <= p - ent(c)[i].offset - wsum(c)[i] && p - ent(c)[i].offset - wsum(c)[i] < len(ent(c)[i].data)
        ==> wdat(c)[p] == ent(c)[i].data[p - ent(c)[i].offset - wsum(c)[i]])
  && (forall i, p {ent(c)[i], wdat(c)[p]} :: 0 <= i && i < nent(c) && poff(c)[i] <= p - wsum(c)[i] && p - wsum(c)[i] < ent(c)[i].offset
        ==> wdat(c)[p] == c.requestData[p - wsum(c)[i]])
  && (forall p {wdat(c)[p]} :: poff(c)[nent(c)] <= p - wsum(c)[nent(c)] && p - wsum(c)[nent(c)] < len(c.requestData)
        ==> wdat(c)[p] == c.requestData[p - wsum(c)[nent(c)]])

pred wire(c *commandListData) seq = bytes(wdat(c), 0, wlen(c))

pred batok(b *cmdBuilder, j int, c *commandListData) =
  c != nil && bown(c) == b && bpos(c) == j
  && c.link == nil && c.conn == nil
  && 0 <= c.cmdCount && c.cmdCount <= b.maxCmdCount && (j + 1 < nbat(b) ==> c.cmdCount == b.maxCmdCount) && (j > 0 ==> c.cmdCount > 0)
  && 0 <= ngets(c) && ngets(c) <= c.cmdCount
  && len(c.responseBinaries) == 0 && (j + 1 < nbat(b) ==> cap(c.responseBinaries) >= ngets(c))

pred bok(b *cmdBuilder) =
  1 <= b.maxCmdCount && b.maxCmdCount <= 1073741824 && nbat(b) >= 1
  && b.cmd == bat(b)[nbat(b)-1] && b.cmdList == bat(b)[0] && b.lastPointer == &b.cmd.sibling
  && b.lastRequestEntry == (nent(b.cmd) == 0 ? &b.cmd.requestBinaries : &ent(b.cmd)[nent(b.cmd)-1].next)
  && b.mgetCount == ngets(b.cmd) && wireok(b.cmd)
  && (forall j {bat(b)[j]} :: 0 <= j && j < nbat(b) ==> batok(b, j, bat(b)[j]))
  && (forall j {bat(b)[j].sibling} :: 0 <= j && j < nbat(b) ==> bat(b)[j].sibling == (j + 1 < nbat(b) ? bat(b)[j+1] : nil))

func initCmdBuilder(b, maxCmdCount)
  prop C01 C17
  requires b != nil && 1 <= maxCmdCount && maxCmdCount <= 1073741824
  modifies *b, bat(b), nbat(b)
  atexit bat(b)[0] := b.cmd
  atexit nbat(b) := 1
  atexit bown(b.cmd) := b
  atexit bpos(b.cmd) := 0
  atexit nent(b.cmd) := 0
  atexit poff(b.cmd)[0] := 0
  atexit wsum(b.cmd)[0] := 0
  atexit wlen(b.cmd) := 0
  atexit ngets(b.cmd) := 0
  atexit aown(arr(b.cmd.requestData)) := b.cmd
  ensures bok(b)
  ensures nbat(b) == 1 && wlen(b.cmd) == 0 && b.cmd.cmdCount == 0 && b.maxCmdCount == maxCmdCount && fresh(b.cmd)

func appendNumber(data, n)(r)
  prop C01
  modifies content(data)
  ensures off(r) == off(data) && len(r) == len(data) + len(dec(n)) && seq(r) == old(seq(data)) ++ dec(n)
  ensures (arr(r) == arr(data) || fresh(r)) && len(dec(n)) >= 1
  // writing the digits backwards
  inv $n == d10(n, $k) && $k >= 0 && (n > 0 ==> declen(n) == $k + ($n == 0 ? 0 : declen($n)))
  inv $n != n ==> $k >= 1
  inv len($data) == len(data) + $k
  inv forall i :: 0 <= i < $k ==> $data[len(data) + i] == ddig(n, i)
  // reversing them
  inv off($data) == off(data) && (forall i :: 0 <= i < len(data) ==> $data[i] == old(data[i]))
  inv arr($data) == arr(data) || fresh($data)
  inv forall i :: 0 <= i < declen(n) ==> $data[len(data) + i] == (i < $offset || i >= declen(n) - $offset ? ddig(n, declen(n) - 1 - i) : ddig(n, i))
  inv 0 <= $offset

// what an added command must do to the current batch: e is the encoding, ctext the part of it kept as text (the rest is the value entry)
pred encMGet(key str, n int, cas bool) seq = "mg " ++ key ++ (cas ? seq(" c") : seq("")) ++ (n > 0 ? " N" ++ dec(n) : seq("")) ++ " v\r\n"
pred textMSet(key str, n int, cas int, ttl int) seq = "ms " ++ key ++ " " ++ dec(n) ++ (cas > 0 ? " C" ++ dec(cas) : seq("")) ++ (ttl > 0 ? " T" ++ dec(ttl) : seq("")) ++ "\r\n"
pred encMDel(key str, cas int, i bool, ttl int) seq = "md " ++ key ++ (cas > 0 ? " C" ++ dec(cas) : seq("")) ++ (i ? " I" ++ (ttl > 0 ? " T" ++ dec(ttl) : seq("")) : seq("")) ++ "\r\n"

func (*cmdBuilder).addMGet(b, key, opts)
  prop C01 C17
  requires bok(b)
  let c0 = b.cmd
  modifies *b, *b.cmd, content(b.cmd.requestData), bat(b), nbat(b), wdat(b.cmd), wlen(b.cmd), ngets(b.cmd), aown(arr(b.cmd.requestData))
  atexit bat(b)[nbat(b)] := b.cmd if b.cmd != c0
  atexit nbat(b) := nbat(b) + 1 if b.cmd != c0
  atexit bown(b.cmd) := b
  atexit bpos(b.cmd) := nbat(b) - 1
  atexit nent(b.cmd) := 0 if b.cmd != c0
  atexit poff(b.cmd)[0] := 0 if b.cmd != c0
  atexit wsum(b.cmd)[0] := 0 if b.cmd != c0
  atexit ngets(b.cmd) := 0 if b.cmd != c0
  atexit ngets(b.cmd) := ngets(b.cmd) + 1
  atexit wlen(b.cmd) := 0 if b.cmd != c0
  atexit wdat(b.cmd) := mkarr(wire(b.cmd) ++ encMGet(key, opts.N, opts.CAS))
  atexit wlen(b.cmd) := wlen(b.cmd) + len(encMGet(key, opts.N, opts.CAS))
  atexit aown(arr(b.cmd.requestData)) := b.cmd
  ensures bok(b)
  ensures old(c0.cmdCount) < b.maxCmdCount ==> nbat(b) == old(nbat(b)) && b.cmd == c0 && c0.cmdCount == old(c0.cmdCount) + 1
            && seq(wire(c0)) == old(wire(c0)) ++ encMGet(key, opts.N, opts.CAS)
  ensures old(c0.cmdCount) >= b.maxCmdCount ==> nbat(b) == old(nbat(b)) + 1 && b.cmd != c0 && b.cmd.cmdCount == 1
            && seq(wire(b.cmd)) == encMGet(key, opts.N, opts.CAS) && wireok(c0) && wire(c0) == old(wire(c0)) && c0.cmdCount == old(c0.cmdCount)
  ensures forall j {bat(b)[j]} :: 0 <= j < old(nbat(b)) ==> bat(b)[j] == old(bat(b))[j]

func (*cmdBuilder).addMDel(b, key, opts)
  prop C01 C17
  requires bok(b)
  let c0 = b.cmd
  modifies *b, *b.cmd, content(b.cmd.requestData), bat(b), nbat(b), wdat(b.cmd), wlen(b.cmd), ngets(b.cmd), aown(arr(b.cmd.requestData))
  atexit bat(b)[nbat(b)] := b.cmd if b.cmd != c0
  atexit nbat(b) := nbat(b) + 1 if b.cmd != c0
  atexit bown(b.cmd) := b
  atexit bpos(b.cmd) := nbat(b) - 1
  atexit nent(b.cmd) := 0 if b.cmd != c0
  atexit poff(b.cmd)[0] := 0 if b.cmd != c0
  atexit wsum(b.cmd)[0] := 0 if b.cmd != c0
  atexit ngets(b.cmd) := 0 if b.cmd != c0
  atexit wlen(b.cmd) := 0 if b.cmd != c0
  atexit wdat(b.cmd) := mkarr(wire(b.cmd) ++ encMDel(key, opts.CAS, opts.I, opts.TTL))
  atexit wlen(b.cmd) := wlen(b.cmd) + len(encMDel(key, opts.CAS, opts.I, opts.TTL))
  atexit aown(arr(b.cmd.requestData)) := b.cmd
  ensures bok(b)
  ensures old(c0.cmdCount) < b.maxCmdCount ==> nbat(b) == old(nbat(b)) && b.cmd == c0 && c0.cmdCount == old(c0.cmdCount) + 1
            && seq(wire(c0)) == old(wire(c0)) ++ encMDel(key, opts.CAS, opts.I, opts.TTL)
  ensures old(c0.cmdCount) >= b.maxCmdCount ==> nbat(b) == old(nbat(b)) + 1 && b.cmd != c0 && b.cmd.cmdCount == 1
            && seq(wire(b.cmd)) == encMDel(key, opts.CAS, opts.I, opts.TTL) && wireok(c0) && wire(c0) == old(wire(c0)) && c0.cmdCount == old(c0.cmdCount)
  ensures forall j {bat(b)[j]} :: 0 <= j < old(nbat(b)) ==> bat(b)[j] == old(bat(b))[j]

func (*cmdBuilder).addVersion(b)
  prop C01 C17
  requires bok(b)
  let c0 = b.cmd
  modifies *b, *b.cmd, content(b.cmd.requestData), bat(b), nbat(b), wdat(b.cmd), wlen(b.cmd), ngets(b.cmd), aown(arr(b.cmd.requestData))
  atexit bat(b)[nbat(b)] := b.cmd if b.cmd != c0
  atexit nbat(b) := nbat(b) + 1 if b.cmd != c0
  atexit bown(b.cmd) := b
  atexit bpos(b.cmd) := nbat(b) - 1
  atexit nent(b.cmd) := 0 if b.cmd != c0
  atexit poff(b.cmd)[0] := 0 if b.cmd != c0
  atexit wsum(b.cmd)[0] := 0 if b.cmd != c0
  atexit ngets(b.cmd) := 0 if b.cmd != c0
  atexit wlen(b.cmd) := 0 if b.cmd != c0
  atexit wdat(b.cmd) := mkarr(wire(b.cmd) ++ seq("version\r\n"))
  atexit wlen(b.cmd) := wlen(b.cmd) + len(seq("version\r\n"))
  atexit aown(arr(b.cmd.requestData)) := b.cmd
  ensures bok(b)
  ensures old(c0.cmdCount) < b.maxCmdCount ==> nbat(b) == old(nbat(b)) && b.cmd == c0 && c0.cmdCount == old(c0.cmdCount) + 1
            && seq(wire(c0)) == old(wire(c0)) ++ seq("version\r\n")
  ensures old(c0.cmdCount) >= b.maxCmdCount ==> nbat(b) == old(nbat(b)) + 1 && b.cmd != c0 && b.cmd.cmdCount == 1
            && seq(wire(b.cmd)) == seq("version\r\n") && wireok(c0) && wire(c0) == old(wire(c0)) && c0.cmdCount == old(c0.cmdCount)
  ensures forall j {bat(b)[j]} :: 0 <= j < old(nbat(b)) ==> bat(b)[j] == old(bat(b))[j]

func (*cmdBuilder).addFlushAll(b)
  prop C01 C17
  requires bok(b)
  let c0 = b.cmd
  modifies *b, *b.cmd, content(b.cmd.requestData), bat(b), nbat(b), wdat(b.cmd), wlen(b.cmd), ngets(b.cmd), aown(arr(b.cmd.requestData))
  atexit bat(b)[nbat(b)] := b.cmd if b.cmd != c0
  atexit nbat(b) := nbat(b) + 1 if b.cmd != c0
  atexit bown(b.cmd) := b
  atexit bpos(b.cmd) := nbat(b) - 1
  atexit nent(b.cmd) := 0 if b.cmd != c0
  atexit poff(b.cmd)[0] := 0 if b.cmd != c0
  atexit wsum(b.cmd)[0] := 0 if b.cmd != c0
  atexit ngets(b.cmd) := 0 if b.cmd != c0
  atexit wlen(b.cmd) := 0 if b.cmd != c0
  atexit wdat(b.cmd) := mkarr(wire(b.cmd) ++ seq("flush_all\r\n"))
  atexit wlen(b.cmd) := wlen(b.cmd) + len(seq("flush_all\r\n"))
  atexit aown(arr(b.cmd.requestData)) := b.cmd
  ensures bok(b)
  ensures old(c0.cmdCount) < b.maxCmdCount ==> nbat(b) == old(nbat(b)) && b.cmd == c0 && c0.cmdCount == old(c0.cmdCount) + 1
            && seq(wire(c0)) == old(wire(c0)) ++ seq("flush_all\r\n")
  ensures old(c0.cmdCount) >= b.maxCmdCount ==> nbat(b) == old(nbat(b)) + 1 && b.cmd != c0 && b.cmd.cmdCount == 1
            && seq(wire(b.cmd)) == seq("flush_all\r\n") && wireok(c0) && wire(c0) == old(wire(c0)) && c0.cmdCount == old(c0.cmdCount)
  ensures forall j {bat(b)[j]} :: 0 <= j < old(nbat(b)) ==> bat(b)[j] == old(bat(b))[j]

// the value is kept in an entry of its own; ne is that entry
func (*cmdBuilder).addMSet(b, key, data, opts)
  prop C01 C17
  requires bok(b) && arr(data) != arr(b.cmd.requestData) && len(data) <= 1073741824000
  let c0 = b.cmd
  modifies *b, *b.cmd, content(b.cmd.requestData), bat(b), nbat(b), wdat(b.cmd), wlen(b.cmd), ngets(b.cmd), aown(arr(b.cmd.requestData)), nent(b.cmd), ent(b.cmd), wsum(b.cmd), poff(b.cmd), all requestBinaryEntry.next where nent(b.cmd) > 0 && a == ent(b.cmd)[nent(b.cmd)-1]
  atexit bat(b)[nbat(b)] := b.cmd if b.cmd != c0
  atexit nbat(b) := nbat(b) + 1 if b.cmd != c0
  atexit bown(b.cmd) := b
  atexit bpos(b.cmd) := nbat(b) - 1
  atexit nent(b.cmd) := 0 if b.cmd != c0
  atexit poff(b.cmd)[0] := 0 if b.cmd != c0
  atexit wsum(b.cmd)[0] := 0 if b.cmd != c0
  atexit ngets(b.cmd) := 0 if b.cmd != c0
  atexit wlen(b.cmd) := 0 if b.cmd != c0
  atexit wdat(b.cmd) := mkarr(wire(b.cmd) ++ (textMSet(key, len(data), opts.CAS, opts.TTL) ++ old(seq(data)) ++ "\r\n"))
  atexit wlen(b.cmd) := wlen(b.cmd) + len((textMSet(key, len(data), opts.CAS, opts.TTL) ++ old(seq(data)) ++ "\r\n"))
  atexit aown(arr(b.cmd.requestData)) := b.cmd
  atexit ent(b.cmd)[nent(b.cmd)] := (nent(b.cmd) == 0 ? b.cmd.requestBinaries : ent(b.cmd)[nent(b.cmd)-1].next)
  atexit eown(ent(b.cmd)[nent(b.cmd)]) := b.cmd
  atexit epos(ent(b.cmd)[nent(b.cmd)]) := nent(b.cmd)
  atexit aown(arr(ent(b.cmd)[nent(b.cmd)].data)) := b.cmd
  atexit wsum(b.cmd)[nent(b.cmd)+1] := wsum(b.cmd)[nent(b.cmd)] + len(ent(b.cmd)[nent(b.cmd)].data)
  atexit poff(b.cmd)[nent(b.cmd)+1] := ent(b.cmd)[nent(b.cmd)].offset
  atexit nent(b.cmd) := nent(b.cmd) + 1
  ensures bok(b)
  ensures old(c0.cmdCount) < b.maxCmdCount ==> nbat(b) == old(nbat(b)) && b.cmd == c0 && c0.cmdCount == old(c0.cmdCount) + 1
            && seq(wire(c0)) == old(wire(c0)) ++ (textMSet(key, len(data), opts.CAS, opts.TTL) ++ old(seq(data)) ++ "\r\n")
  ensures old(c0.cmdCount) >= b.maxCmdCount ==> nbat(b) == old(nbat(b)) + 1 && b.cmd != c0 && b.cmd.cmdCount == 1
            && seq(wire(b.cmd)) == (textMSet(key, len(data), opts.CAS, opts.TTL) ++ old(seq(data)) ++ "\r\n") && wireok(c0) && wire(c0) == old(wire(c0)) && c0.cmdCount == old(c0.cmdCount)
  ensures forall j {bat(b)[j]} :: 0 <= j < old(nbat(b)) ==> bat(b)[j] == old(bat(b))[j]

// the finished pipeline: the list of its batches, each with room for the values of its gets
func (*cmdBuilder).finish(b)(r)
  prop C01 C17
  requires bok(b)
  modifies b.mgetCount, b.cmd.responseBinaries
  ensures r == bat(b)[0] && b.cmd == old(b.cmd) && wireok(b.cmd) && wire(b.cmd) == old(wire(b.cmd))
  ensures forall j {bat(b)[j]} :: 0 <= j && j < nbat(b) ==> batok(b, j, bat(b)[j]) && cap(bat(b)[j].responseBinaries) >= ngets(bat(b)[j])
  ensures forall j {bat(b)[j].sibling} :: 0 <= j && j < nbat(b) ==> bat(b)[j].sibling == (j + 1 < nbat(b) ? bat(b)[j+1] : nil)

// what a writer received so far
ghost out(iface) [int]int
ghost outlen(iface) int

extern "iface:io.Writer.Write"(w, p)(n, err)
  requires @C12 !werr(w)
  modifies outlen(w), out(w), werr(w)
  ensures outlen(w) >= old(outlen(w)) && (werr(w) <==> err != nil) && !errclosed(err)
  ensures err == nil ==> bytes(out(w), 0, outlen(w)) == bytes(old(out(w)), 0, old(outlen(w))) ++ seq(p)

func (*commandListData).writeToWriter(c, w)(err)
  prop C01
  requires wireok(c) && w != nil && outlen(w) >= 0 && !werr(w)
  modifies outlen(w), out(w), werr(w), wcnt(w), wcmd(w), wat(w)
  atexit wcmd(w)[wcnt(w)] := c if err == nil
  atexit wat(w)[wcnt(w)] := o0 if err == nil
  atexit wcnt(w) := wcnt(w) + 1 if err == nil
  let o0 = outlen(w)
  let d0 = out(w)
  inv ($current == nil ? $index == poff(c)[nent(c)] && outlen(w) == o0 + $index + wsum(c)[nent(c)]
                    : eown($current) == c && 0 <= epos($current) < nent(c) && ent(c)[epos($current)] == $current && $index == poff(c)[epos($current)] && outlen(w) == o0 + $index + wsum(c)[epos($current)])
  inv outlen(w) - o0 <= wlen(c)
  inv !werr(w)
  inv outlen(w) >= o0
  inv (forall q {out(w)[q]} :: 0 <= q < outlen(w) ==> out(w)[q] == (q < o0 ? d0[q] : wdat(c)[q - o0]))
  ensures @C01 err == nil ==> bytes(out(w), 0, outlen(w)) == bytes(old(out(w)), 0, old(outlen(w))) ++ wire(c)
  ensures (werr(w) <==> err != nil) && !errclosed(err)
  ensures outlen(w) >= old(outlen(w))
  ensures err == nil ==> wcnt(w) == old(wcnt(w)) + 1 && wcmd(w) == old(wcmd(w))[old(wcnt(w)) := c] && wat(w) == old(wat(w))[old(wcnt(w)) := old(outlen(w))]
  ensures err == nil ==> outlen(w) == old(outlen(w)) + wlen(c)
