package stats

// ---- text of a statistics reply

ghost lines(ref) [int]string   // the lines the server sends, as the scanner splits them
ghost lpos(ref) int            // how many of them were taken
ghost scerr(ref) iface

extern "(*bufio.Scanner).Scan"(sc)(ok)
  flag blocks
  modifies lpos(sc), scerr(sc)
  ensures lpos(sc) == old(lpos(sc)) + (ok ? 1 : 0)
extern "(*bufio.Scanner).Text"(sc)(s)
  ensures s == lines(sc)[lpos(sc) - 1]
extern "(*bufio.Scanner).Err"(sc)(e)
  ensures e == scerr(sc)
extern "iface:netconn.FlushWriter.Write"(w, p)(n, err)
  modifies outlen(w), out(w), werr(w)
  ensures outlen(w) >= old(outlen(w)) && (werr(w) <==> err != nil)

pred sfn(s string) int = uf("fieldslen", int, s)
pred sf(s string, i int) string = uf("fieldsat", string, s, i)
pred isu(s string, b int) bool = uf("isnumu", bool, s, 10, b)
pred nu(s string, b int) int = uf("numvalu", int, s, 10, b)
pred kn(s string) int = uf("splitlen", int, s, ":")
pred kp(s string, i int) string = uf("splitat", string, s, ":", i)
pred statline(s string) bool = sfn(s) >= 3 && sf(s, 0) == "STAT"
ghost slpos(ref) [int]int       // where a class is in the list of classes
pred endline(s string) bool = sfn(s) >= 1 && sf(s, 0) == "END"

func (*statsParser).next(p)(ok)
  prop C20
  requires p.scanner != nil
  modifies p.item, p.lastErr, lpos(p.scanner), scerr(p.scanner)
  let L = lines(p.scanner)[lpos(p.scanner)]
  ensures @C20 ok ==> p.lastErr == nil && lpos(p.scanner) == old(lpos(p.scanner)) + 1 && statline(L) && p.item.key == sf(L, 1) && p.item.value == sf(L, 2)
  ensures @C20 !ok && p.lastErr == nil ==> lpos(p.scanner) == old(lpos(p.scanner)) + 1 && endline(L)

func (*Client).writeCommand(c, cmd)(err)
  prop C20
  requires c.nc.Writer != nil
  modifies all outlen, all out, all werr, all flushes

pred cl(c *Client) bool = c.nc.Writer != nil && c.parser != nil && c.parser.scanner != nil && c.parser.scanner == c.scanner

// ---- general statistics
rec pidv(l [int]string, a int, n int) int #2 = n <= a ? 0 : sf(l[n-1], 1) == "pid" ? nu(sf(l[n-1], 2), 64) : pidv(l, a, n - 1)
rec uptv(l [int]string, a int, n int) int #2 = n <= a ? 0 : sf(l[n-1], 1) == "uptime" ? nu(sf(l[n-1], 2), 64) : uptv(l, a, n - 1)
pred genok(s string) bool = statline(s) && (sf(s, 1) == "pid" || sf(s, 1) == "uptime" ==> isu(sf(s, 2), 64))

func (*Client).GetGeneralStats(c)(r, err)
  prop C20
  requires cl(c)
  modifies c.parser.item, c.parser.lastErr, lpos(c.scanner), scerr(c.scanner), all outlen, all out, all werr, all flushes
  let sc = c.scanner
  let l0 = lpos(c.scanner)
  let L = lines(c.scanner)
  inv lpos(sc) >= l0
  inv forall k {L[k]} :: l0 <= k && k < lpos(sc) ==> genok(L[k])
  inv $result.PID == pidv(L, l0, lpos(sc))
  inv $result.Uptime == uptv(L, l0, lpos(sc))
  ensures @C20 err == nil ==> lpos(sc) > l0 && endline(L[lpos(sc)-1])
  ensures @C20 err == nil ==> forall k {L[k]} :: l0 <= k && k < lpos(sc) - 1 ==> genok(L[k])
  ensures @C20 err == nil ==> r.PID == pidv(L, l0, lpos(sc) - 1) && r.Uptime == uptv(L, l0, lpos(sc) - 1)

rec slChunkSize(l [int]string, a int, n int, c int) int #2 = n <= a ? 0 : kp(sf(l[n-1], 1), 1) == "chunk_size" && slis(sf(l[n-1], 1)) && nu(kp(sf(l[n-1], 1), 0), 32) == c ? nu(sf(l[n-1], 2), 32) : slChunkSize(l, a, n - 1, c)
rec slChunksPerPage(l [int]string, a int, n int, c int) int #2 = n <= a ? 0 : kp(sf(l[n-1], 1), 1) == "chunks_per_page" && slis(sf(l[n-1], 1)) && nu(kp(sf(l[n-1], 1), 0), 32) == c ? nu(sf(l[n-1], 2), 32) : slChunksPerPage(l, a, n - 1, c)
rec slTotalPages(l [int]string, a int, n int, c int) int #2 = n <= a ? 0 : kp(sf(l[n-1], 1), 1) == "total_pages" && slis(sf(l[n-1], 1)) && nu(kp(sf(l[n-1], 1), 0), 32) == c ? nu(sf(l[n-1], 2), 32) : slTotalPages(l, a, n - 1, c)
rec slTotalChunks(l [int]string, a int, n int, c int) int #2 = n <= a ? 0 : kp(sf(l[n-1], 1), 1) == "total_chunks" && slis(sf(l[n-1], 1)) && nu(kp(sf(l[n-1], 1), 0), 32) == c ? nu(sf(l[n-1], 2), 64) : slTotalChunks(l, a, n - 1, c)
rec slUsedChunks(l [int]string, a int, n int, c int) int #2 = n <= a ? 0 : kp(sf(l[n-1], 1), 1) == "used_chunks" && slis(sf(l[n-1], 1)) && nu(kp(sf(l[n-1], 1), 0), 32) == c ? nu(sf(l[n-1], 2), 64) : slUsedChunks(l, a, n - 1, c)
pred slk32(s string) bool = kp(s, 1) == "chunk_size" || kp(s, 1) == "chunks_per_page" || kp(s, 1) == "total_pages"
pred slk64(s string) bool = kp(s, 1) == "total_chunks" || kp(s, 1) == "used_chunks"
pred slknown(s string) bool = slk32(s) || slk64(s)
pred slis(s string) bool = s != "active_slabs" && s != "total_malloced"
pred slgood(key string, val string) bool = kn(key) >= 2 && isu(kp(key, 0), 32) && (slk32(key) ==> isu(val, 32)) && (slk64(key) ==> isu(val, 64))
rec slseen(l [int]string, a int, n int, c int) bool #2 = n <= a ? false : (slis(sf(l[n-1], 1)) && slknown(sf(l[n-1], 1)) && nu(kp(sf(l[n-1], 1), 0), 32) == c) || slseen(l, a, n - 1, c)
pred slids(s *SlabsStats) bool = (forall i, j {s.SlabIDs[i], s.SlabIDs[j]} :: 0 <= i && i < j && j < len(s.SlabIDs) ==> s.SlabIDs[i] != s.SlabIDs[j]) && (forall i {s.SlabIDs[i]} :: 0 <= i && i < len(s.SlabIDs) ==> inmap(s.Slabs, s.SlabIDs[i])) && (forall c {inmap(s.Slabs, c)} :: inmap(s.Slabs, c) ==> 0 <= slpos(s.Slabs)[c] && slpos(s.Slabs)[c] < len(s.SlabIDs) && s.SlabIDs[slpos(s.Slabs)[c]] == c)

func (*SlabsStats).parseSlabStat(s, item)(err)
  prop C20
  requires s.Slabs != nil && slids(s)
  modifies s.SlabIDs, content(s.Slabs), content(s.SlabIDs), slpos(s.Slabs)
  let key = item.key
  let val = item.value
  let cls = nu(kp(item.key, 0), 32)
  let hit = slknown(item.key)
  let new = slknown(item.key) && !inmap(s.Slabs, nu(kp(item.key, 0), 32))
  atexit slpos(s.Slabs)[cls] := len(s.SlabIDs) - 1 if new
  ensures @C20 err == nil ==> slgood(key, val)
  ensures @C20 err != nil ==> !slgood(key, val)
  ensures @C20 err == nil ==> slids(s)
  ensures arr(s.SlabIDs) == old(arr(s.SlabIDs)) || fresh(s.SlabIDs)
  ensures @C20 err == nil ==> forall c {inmap(s.Slabs, c)} :: inmap(s.Slabs, c) <==> old(inmap(s.Slabs, c)) || (hit && c == cls)
  ensures @C20 err == nil ==> forall c {s.Slabs[c].ChunkSize} :: s.Slabs[c].ChunkSize == (c == cls && kp(key, 1) == "chunk_size" ? nu(val, 32) : c == cls && hit && !old(inmap(s.Slabs, c)) ? 0 : old(s.Slabs[c].ChunkSize))
  ensures @C20 err == nil ==> forall c {s.Slabs[c].ChunksPerPage} :: s.Slabs[c].ChunksPerPage == (c == cls && kp(key, 1) == "chunks_per_page" ? nu(val, 32) : c == cls && hit && !old(inmap(s.Slabs, c)) ? 0 : old(s.Slabs[c].ChunksPerPage))
  ensures @C20 err == nil ==> forall c {s.Slabs[c].TotalPages} :: s.Slabs[c].TotalPages == (c == cls && kp(key, 1) == "total_pages" ? nu(val, 32) : c == cls && hit && !old(inmap(s.Slabs, c)) ? 0 : old(s.Slabs[c].TotalPages))
  ensures @C20 err == nil ==> forall c {s.Slabs[c].TotalChunks} :: s.Slabs[c].TotalChunks == (c == cls && kp(key, 1) == "total_chunks" ? nu(val, 64) : c == cls && hit && !old(inmap(s.Slabs, c)) ? 0 : old(s.Slabs[c].TotalChunks))
  ensures @C20 err == nil ==> forall c {s.Slabs[c].UsedChunks} :: s.Slabs[c].UsedChunks == (c == cls && kp(key, 1) == "used_chunks" ? nu(val, 64) : c == cls && hit && !old(inmap(s.Slabs, c)) ? 0 : old(s.Slabs[c].UsedChunks))
rec itNumber(l [int]string, a int, n int, c int) int #2 = n <= a ? 0 : kp(sf(l[n-1], 1), 2) == "number" && itis(sf(l[n-1], 1)) && nu(kp(sf(l[n-1], 1), 1), 32) == c ? nu(sf(l[n-1], 2), 64) : itNumber(l, a, n - 1, c)
rec itNumberHot(l [int]string, a int, n int, c int) int #2 = n <= a ? 0 : kp(sf(l[n-1], 1), 2) == "number_hot" && itis(sf(l[n-1], 1)) && nu(kp(sf(l[n-1], 1), 1), 32) == c ? nu(sf(l[n-1], 2), 64) : itNumberHot(l, a, n - 1, c)
rec itNumberWarm(l [int]string, a int, n int, c int) int #2 = n <= a ? 0 : kp(sf(l[n-1], 1), 2) == "number_warm" && itis(sf(l[n-1], 1)) && nu(kp(sf(l[n-1], 1), 1), 32) == c ? nu(sf(l[n-1], 2), 64) : itNumberWarm(l, a, n - 1, c)
rec itNumberCold(l [int]string, a int, n int, c int) int #2 = n <= a ? 0 : kp(sf(l[n-1], 1), 2) == "number_cold" && itis(sf(l[n-1], 1)) && nu(kp(sf(l[n-1], 1), 1), 32) == c ? nu(sf(l[n-1], 2), 64) : itNumberCold(l, a, n - 1, c)
rec itAgeHot(l [int]string, a int, n int, c int) int #2 = n <= a ? 0 : kp(sf(l[n-1], 1), 2) == "age_hot" && itis(sf(l[n-1], 1)) && nu(kp(sf(l[n-1], 1), 1), 32) == c ? nu(sf(l[n-1], 2), 64) : itAgeHot(l, a, n - 1, c)
rec itAgeWarm(l [int]string, a int, n int, c int) int #2 = n <= a ? 0 : kp(sf(l[n-1], 1), 2) == "age_warm" && itis(sf(l[n-1], 1)) && nu(kp(sf(l[n-1], 1), 1), 32) == c ? nu(sf(l[n-1], 2), 64) : itAgeWarm(l, a, n - 1, c)
rec itAge(l [int]string, a int, n int, c int) int #2 = n <= a ? 0 : kp(sf(l[n-1], 1), 2) == "age" && itis(sf(l[n-1], 1)) && nu(kp(sf(l[n-1], 1), 1), 32) == c ? nu(sf(l[n-1], 2), 64) : itAge(l, a, n - 1, c)
rec itMemRequested(l [int]string, a int, n int, c int) int #2 = n <= a ? 0 : kp(sf(l[n-1], 1), 2) == "mem_requested" && itis(sf(l[n-1], 1)) && nu(kp(sf(l[n-1], 1), 1), 32) == c ? nu(sf(l[n-1], 2), 64) : itMemRequested(l, a, n - 1, c)
rec itEvicted(l [int]string, a int, n int, c int) int #2 = n <= a ? 0 : kp(sf(l[n-1], 1), 2) == "evicted" && itis(sf(l[n-1], 1)) && nu(kp(sf(l[n-1], 1), 1), 32) == c ? nu(sf(l[n-1], 2), 64) : itEvicted(l, a, n - 1, c)
rec itEvictedNonZero(l [int]string, a int, n int, c int) int #2 = n <= a ? 0 : kp(sf(l[n-1], 1), 2) == "evicted_nonzero" && itis(sf(l[n-1], 1)) && nu(kp(sf(l[n-1], 1), 1), 32) == c ? nu(sf(l[n-1], 2), 64) : itEvictedNonZero(l, a, n - 1, c)
rec itEvictedTime(l [int]string, a int, n int, c int) int #2 = n <= a ? 0 : kp(sf(l[n-1], 1), 2) == "evicted_time" && itis(sf(l[n-1], 1)) && nu(kp(sf(l[n-1], 1), 1), 32) == c ? nu(sf(l[n-1], 2), 64) : itEvictedTime(l, a, n - 1, c)
rec itOutOfMemory(l [int]string, a int, n int, c int) int #2 = n <= a ? 0 : kp(sf(l[n-1], 1), 2) == "outofmemory" && itis(sf(l[n-1], 1)) && nu(kp(sf(l[n-1], 1), 1), 32) == c ? nu(sf(l[n-1], 2), 64) : itOutOfMemory(l, a, n - 1, c)
rec itTailRepairs(l [int]string, a int, n int, c int) int #2 = n <= a ? 0 : kp(sf(l[n-1], 1), 2) == "tailrepairs" && itis(sf(l[n-1], 1)) && nu(kp(sf(l[n-1], 1), 1), 32) == c ? nu(sf(l[n-1], 2), 64) : itTailRepairs(l, a, n - 1, c)
rec itReclaimed(l [int]string, a int, n int, c int) int #2 = n <= a ? 0 : kp(sf(l[n-1], 1), 2) == "reclaimed" && itis(sf(l[n-1], 1)) && nu(kp(sf(l[n-1], 1), 1), 32) == c ? nu(sf(l[n-1], 2), 64) : itReclaimed(l, a, n - 1, c)
rec itExpiredUnfetched(l [int]string, a int, n int, c int) int #2 = n <= a ? 0 : kp(sf(l[n-1], 1), 2) == "expired_unfetched" && itis(sf(l[n-1], 1)) && nu(kp(sf(l[n-1], 1), 1), 32) == c ? nu(sf(l[n-1], 2), 64) : itExpiredUnfetched(l, a, n - 1, c)
rec itEvictedUnfetched(l [int]string, a int, n int, c int) int #2 = n <= a ? 0 : kp(sf(l[n-1], 1), 2) == "evicted_unfetched" && itis(sf(l[n-1], 1)) && nu(kp(sf(l[n-1], 1), 1), 32) == c ? nu(sf(l[n-1], 2), 64) : itEvictedUnfetched(l, a, n - 1, c)
rec itEvictedActive(l [int]string, a int, n int, c int) int #2 = n <= a ? 0 : kp(sf(l[n-1], 1), 2) == "evicted_active" && itis(sf(l[n-1], 1)) && nu(kp(sf(l[n-1], 1), 1), 32) == c ? nu(sf(l[n-1], 2), 64) : itEvictedActive(l, a, n - 1, c)
rec itCrawlerReclaimed(l [int]string, a int, n int, c int) int #2 = n <= a ? 0 : kp(sf(l[n-1], 1), 2) == "crawler_reclaimed" && itis(sf(l[n-1], 1)) && nu(kp(sf(l[n-1], 1), 1), 32) == c ? nu(sf(l[n-1], 2), 64) : itCrawlerReclaimed(l, a, n - 1, c)
rec itCrawlerItemsChecked(l [int]string, a int, n int, c int) int #2 = n <= a ? 0 : kp(sf(l[n-1], 1), 2) == "crawler_items_checked" && itis(sf(l[n-1], 1)) && nu(kp(sf(l[n-1], 1), 1), 32) == c ? nu(sf(l[n-1], 2), 64) : itCrawlerItemsChecked(l, a, n - 1, c)
rec itLRUTailRefLocked(l [int]string, a int, n int, c int) int #2 = n <= a ? 0 : kp(sf(l[n-1], 1), 2) == "lrutail_reflocked" && itis(sf(l[n-1], 1)) && nu(kp(sf(l[n-1], 1), 1), 32) == c ? nu(sf(l[n-1], 2), 64) : itLRUTailRefLocked(l, a, n - 1, c)
rec itMovesToCold(l [int]string, a int, n int, c int) int #2 = n <= a ? 0 : kp(sf(l[n-1], 1), 2) == "moves_to_cold" && itis(sf(l[n-1], 1)) && nu(kp(sf(l[n-1], 1), 1), 32) == c ? nu(sf(l[n-1], 2), 64) : itMovesToCold(l, a, n - 1, c)
rec itMovesToWarm(l [int]string, a int, n int, c int) int #2 = n <= a ? 0 : kp(sf(l[n-1], 1), 2) == "moves_to_warm" && itis(sf(l[n-1], 1)) && nu(kp(sf(l[n-1], 1), 1), 32) == c ? nu(sf(l[n-1], 2), 64) : itMovesToWarm(l, a, n - 1, c)
rec itMovesWithinLRU(l [int]string, a int, n int, c int) int #2 = n <= a ? 0 : kp(sf(l[n-1], 1), 2) == "moves_within_lru" && itis(sf(l[n-1], 1)) && nu(kp(sf(l[n-1], 1), 1), 32) == c ? nu(sf(l[n-1], 2), 64) : itMovesWithinLRU(l, a, n - 1, c)
rec itDirectReclaims(l [int]string, a int, n int, c int) int #2 = n <= a ? 0 : kp(sf(l[n-1], 1), 2) == "direct_reclaims" && itis(sf(l[n-1], 1)) && nu(kp(sf(l[n-1], 1), 1), 32) == c ? nu(sf(l[n-1], 2), 64) : itDirectReclaims(l, a, n - 1, c)
rec itHitsToHot(l [int]string, a int, n int, c int) int #2 = n <= a ? 0 : kp(sf(l[n-1], 1), 2) == "hits_to_hot" && itis(sf(l[n-1], 1)) && nu(kp(sf(l[n-1], 1), 1), 32) == c ? nu(sf(l[n-1], 2), 64) : itHitsToHot(l, a, n - 1, c)
rec itHitsToWarm(l [int]string, a int, n int, c int) int #2 = n <= a ? 0 : kp(sf(l[n-1], 1), 2) == "hits_to_warm" && itis(sf(l[n-1], 1)) && nu(kp(sf(l[n-1], 1), 1), 32) == c ? nu(sf(l[n-1], 2), 64) : itHitsToWarm(l, a, n - 1, c)
rec itHitsToCold(l [int]string, a int, n int, c int) int #2 = n <= a ? 0 : kp(sf(l[n-1], 1), 2) == "hits_to_cold" && itis(sf(l[n-1], 1)) && nu(kp(sf(l[n-1], 1), 1), 32) == c ? nu(sf(l[n-1], 2), 64) : itHitsToCold(l, a, n - 1, c)
rec itHitsToTemp(l [int]string, a int, n int, c int) int #2 = n <= a ? 0 : kp(sf(l[n-1], 1), 2) == "hits_to_temp" && itis(sf(l[n-1], 1)) && nu(kp(sf(l[n-1], 1), 1), 32) == c ? nu(sf(l[n-1], 2), 64) : itHitsToTemp(l, a, n - 1, c)
pred itk64(s string) bool = kp(s, 2) == "number" || kp(s, 2) == "number_hot" || kp(s, 2) == "number_warm" || kp(s, 2) == "number_cold" || kp(s, 2) == "age_hot" || kp(s, 2) == "age_warm" || kp(s, 2) == "age" || kp(s, 2) == "mem_requested" || kp(s, 2) == "evicted" || kp(s, 2) == "evicted_nonzero" || kp(s, 2) == "evicted_time" || kp(s, 2) == "outofmemory" || kp(s, 2) == "tailrepairs" || kp(s, 2) == "reclaimed" || kp(s, 2) == "expired_unfetched" || kp(s, 2) == "evicted_unfetched" || kp(s, 2) == "evicted_active" || kp(s, 2) == "crawler_reclaimed" || kp(s, 2) == "crawler_items_checked" || kp(s, 2) == "lrutail_reflocked" || kp(s, 2) == "moves_to_cold" || kp(s, 2) == "moves_to_warm" || kp(s, 2) == "moves_within_lru" || kp(s, 2) == "direct_reclaims" || kp(s, 2) == "hits_to_hot" || kp(s, 2) == "hits_to_warm" || kp(s, 2) == "hits_to_cold" || kp(s, 2) == "hits_to_temp"
pred itknown(s string) bool = itk64(s)
pred itis(s string) bool = true
pred itgood(key string, val string) bool = kn(key) >= 3 && isu(kp(key, 1), 32) && (itk64(key) ==> isu(val, 64))
rec itseen(l [int]string, a int, n int, c int) bool #2 = n <= a ? false : (itis(sf(l[n-1], 1)) && itknown(sf(l[n-1], 1)) && nu(kp(sf(l[n-1], 1), 1), 32) == c) || itseen(l, a, n - 1, c)
pred itids(s *SlabItemsStats) bool = (forall i, j {s.SlabIDs[i], s.SlabIDs[j]} :: 0 <= i && i < j && j < len(s.SlabIDs) ==> s.SlabIDs[i] != s.SlabIDs[j]) && (forall i {s.SlabIDs[i]} :: 0 <= i && i < len(s.SlabIDs) ==> inmap(s.Slabs, s.SlabIDs[i])) && (forall c {inmap(s.Slabs, c)} :: inmap(s.Slabs, c) ==> 0 <= slpos(s.Slabs)[c] && slpos(s.Slabs)[c] < len(s.SlabIDs) && s.SlabIDs[slpos(s.Slabs)[c]] == c)

func (*SlabItemsStats).parseSlabItemStat(s, item)(err)
  prop C20
  requires s.Slabs != nil && itids(s)
  modifies s.SlabIDs, content(s.Slabs), content(s.SlabIDs), slpos(s.Slabs)
  let key = item.key
  let val = item.value
  let cls = nu(kp(item.key, 1), 32)
  let hit = itknown(item.key)
  let new = itknown(item.key) && !inmap(s.Slabs, nu(kp(item.key, 1), 32))
  atexit slpos(s.Slabs)[cls] := len(s.SlabIDs) - 1 if new
  ensures @C20 err == nil ==> itgood(key, val)
  ensures @C20 err != nil ==> !itgood(key, val)
  ensures @C20 err == nil ==> itids(s)
  ensures arr(s.SlabIDs) == old(arr(s.SlabIDs)) || fresh(s.SlabIDs)
  ensures @C20 err == nil ==> forall c {inmap(s.Slabs, c)} :: inmap(s.Slabs, c) <==> old(inmap(s.Slabs, c)) || (hit && c == cls)
  ensures @C20 err == nil ==> forall c {s.Slabs[c].Number} :: s.Slabs[c].Number == (c == cls && kp(key, 2) == "number" ? nu(val, 64) : c == cls && hit && !old(inmap(s.Slabs, c)) ? 0 : old(s.Slabs[c].Number))
  ensures @C20 err == nil ==> forall c {s.Slabs[c].NumberHot} :: s.Slabs[c].NumberHot == (c == cls && kp(key, 2) == "number_hot" ? nu(val, 64) : c == cls && hit && !old(inmap(s.Slabs, c)) ? 0 : old(s.Slabs[c].NumberHot))
  ensures @C20 err == nil ==> forall c {s.Slabs[c].NumberWarm} :: s.Slabs[c].NumberWarm == (c == cls && kp(key, 2) == "number_warm" ? nu(val, 64) : c == cls && hit && !old(inmap(s.Slabs, c)) ? 0 : old(s.Slabs[c].NumberWarm))
  ensures @C20 err == nil ==> forall c {s.Slabs[c].NumberCold} :: s.Slabs[c].NumberCold == (c == cls && kp(key, 2) == "number_cold" ? nu(val, 64) : c == cls && hit && !old(inmap(s.Slabs, c)) ? 0 : old(s.Slabs[c].NumberCold))
  ensures @C20 err == nil ==> forall c {s.Slabs[c].AgeHot} :: s.Slabs[c].AgeHot == (c == cls && kp(key, 2) == "age_hot" ? nu(val, 64) : c == cls && hit && !old(inmap(s.Slabs, c)) ? 0 : old(s.Slabs[c].AgeHot))
  ensures @C20 err == nil ==> forall c {s.Slabs[c].AgeWarm} :: s.Slabs[c].AgeWarm == (c == cls && kp(key, 2) == "age_warm" ? nu(val, 64) : c == cls && hit && !old(inmap(s.Slabs, c)) ? 0 : old(s.Slabs[c].AgeWarm))
  ensures @C20 err == nil ==> forall c {s.Slabs[c].Age} :: s.Slabs[c].Age == (c == cls && kp(key, 2) == "age" ? nu(val, 64) : c == cls && hit && !old(inmap(s.Slabs, c)) ? 0 : old(s.Slabs[c].Age))
  ensures @C20 err == nil ==> forall c {s.Slabs[c].MemRequested} :: s.Slabs[c].MemRequested == (c == cls && kp(key, 2) == "mem_requested" ? nu(val, 64) : c == cls && hit && !old(inmap(s.Slabs, c)) ? 0 : old(s.Slabs[c].MemRequested))
  ensures @C20 err == nil ==> forall c {s.Slabs[c].Evicted} :: s.Slabs[c].Evicted == (c == cls && kp(key, 2) == "evicted" ? nu(val, 64) : c == cls && hit && !old(inmap(s.Slabs, c)) ? 0 : old(s.Slabs[c].Evicted))
  ensures @C20 err == nil ==> forall c {s.Slabs[c].EvictedNonZero} :: s.Slabs[c].EvictedNonZero == (c == cls && kp(key, 2) == "evicted_nonzero" ? nu(val, 64) : c == cls && hit && !old(inmap(s.Slabs, c)) ? 0 : old(s.Slabs[c].EvictedNonZero))
  ensures @C20 err == nil ==> forall c {s.Slabs[c].EvictedTime} :: s.Slabs[c].EvictedTime == (c == cls && kp(key, 2) == "evicted_time" ? nu(val, 64) : c == cls && hit && !old(inmap(s.Slabs, c)) ? 0 : old(s.Slabs[c].EvictedTime))
  ensures @C20 err == nil ==> forall c {s.Slabs[c].OutOfMemory} :: s.Slabs[c].OutOfMemory == (c == cls && kp(key, 2) == "outofmemory" ? nu(val, 64) : c == cls && hit && !old(inmap(s.Slabs, c)) ? 0 : old(s.Slabs[c].OutOfMemory))
  ensures @C20 err == nil ==> forall c {s.Slabs[c].TailRepairs} :: s.Slabs[c].TailRepairs == (c == cls && kp(key, 2) == "tailrepairs" ? nu(val, 64) : c == cls && hit && !old(inmap(s.Slabs, c)) ? 0 : old(s.Slabs[c].TailRepairs))
  ensures @C20 err == nil ==> forall c {s.Slabs[c].Reclaimed} :: s.Slabs[c].Reclaimed == (c == cls && kp(key, 2) == "reclaimed" ? nu(val, 64) : c == cls && hit && !old(inmap(s.Slabs, c)) ? 0 : old(s.Slabs[c].Reclaimed))
  ensures @C20 err == nil ==> forall c {s.Slabs[c].ExpiredUnfetched} :: s.Slabs[c].ExpiredUnfetched == (c == cls && kp(key, 2) == "expired_unfetched" ? nu(val, 64) : c == cls && hit && !old(inmap(s.Slabs, c)) ? 0 : old(s.Slabs[c].ExpiredUnfetched))
  ensures @C20 err == nil ==> forall c {s.Slabs[c].EvictedUnfetched} :: s.Slabs[c].EvictedUnfetched == (c == cls && kp(key, 2) == "evicted_unfetched" ? nu(val, 64) : c == cls && hit && !old(inmap(s.Slabs, c)) ? 0 : old(s.Slabs[c].EvictedUnfetched))
  ensures @C20 err == nil ==> forall c {s.Slabs[c].EvictedActive} :: s.Slabs[c].EvictedActive == (c == cls && kp(key, 2) == "evicted_active" ? nu(val, 64) : c == cls && hit && !old(inmap(s.Slabs, c)) ? 0 : old(s.Slabs[c].EvictedActive))
  ensures @C20 err == nil ==> forall c {s.Slabs[c].CrawlerReclaimed} :: s.Slabs[c].CrawlerReclaimed == (c == cls && kp(key, 2) == "crawler_reclaimed" ? nu(val, 64) : c == cls && hit && !old(inmap(s.Slabs, c)) ? 0 : old(s.Slabs[c].CrawlerReclaimed))
  ensures @C20 err == nil ==> forall c {s.Slabs[c].CrawlerItemsChecked} :: s.Slabs[c].CrawlerItemsChecked == (c == cls && kp(key, 2) == "crawler_items_checked" ? nu(val, 64) : c == cls && hit && !old(inmap(s.Slabs, c)) ? 0 : old(s.Slabs[c].CrawlerItemsChecked))
  ensures @C20 err == nil ==> forall c {s.Slabs[c].LRUTailRefLocked} :: s.Slabs[c].LRUTailRefLocked == (c == cls && kp(key, 2) == "lrutail_reflocked" ? nu(val, 64) : c == cls && hit && !old(inmap(s.Slabs, c)) ? 0 : old(s.Slabs[c].LRUTailRefLocked))
  ensures @C20 err == nil ==> forall c {s.Slabs[c].MovesToCold} :: s.Slabs[c].MovesToCold == (c == cls && kp(key, 2) == "moves_to_cold" ? nu(val, 64) : c == cls && hit && !old(inmap(s.Slabs, c)) ? 0 : old(s.Slabs[c].MovesToCold))
  ensures @C20 err == nil ==> forall c {s.Slabs[c].MovesToWarm} :: s.Slabs[c].MovesToWarm == (c == cls && kp(key, 2) == "moves_to_warm" ? nu(val, 64) : c == cls && hit && !old(inmap(s.Slabs, c)) ? 0 : old(s.Slabs[c].MovesToWarm))
  ensures @C20 err == nil ==> forall c {s.Slabs[c].MovesWithinLRU} :: s.Slabs[c].MovesWithinLRU == (c == cls && kp(key, 2) == "moves_within_lru" ? nu(val, 64) : c == cls && hit && !old(inmap(s.Slabs, c)) ? 0 : old(s.Slabs[c].MovesWithinLRU))
  ensures @C20 err == nil ==> forall c {s.Slabs[c].DirectReclaims} :: s.Slabs[c].DirectReclaims == (c == cls && kp(key, 2) == "direct_reclaims" ? nu(val, 64) : c == cls && hit && !old(inmap(s.Slabs, c)) ? 0 : old(s.Slabs[c].DirectReclaims))
  ensures @C20 err == nil ==> forall c {s.Slabs[c].HitsToHot} :: s.Slabs[c].HitsToHot == (c == cls && kp(key, 2) == "hits_to_hot" ? nu(val, 64) : c == cls && hit && !old(inmap(s.Slabs, c)) ? 0 : old(s.Slabs[c].HitsToHot))
  ensures @C20 err == nil ==> forall c {s.Slabs[c].HitsToWarm} :: s.Slabs[c].HitsToWarm == (c == cls && kp(key, 2) == "hits_to_warm" ? nu(val, 64) : c == cls && hit && !old(inmap(s.Slabs, c)) ? 0 : old(s.Slabs[c].HitsToWarm))
  ensures @C20 err == nil ==> forall c {s.Slabs[c].HitsToCold} :: s.Slabs[c].HitsToCold == (c == cls && kp(key, 2) == "hits_to_cold" ? nu(val, 64) : c == cls && hit && !old(inmap(s.Slabs, c)) ? 0 : old(s.Slabs[c].HitsToCold))
  ensures @C20 err == nil ==> forall c {s.Slabs[c].HitsToTemp} :: s.Slabs[c].HitsToTemp == (c == cls && kp(key, 2) == "hits_to_temp" ? nu(val, 64) : c == cls && hit && !old(inmap(s.Slabs, c)) ? 0 : old(s.Slabs[c].HitsToTemp))

rec actv(l [int]string, a int, n int) int #2 = n <= a ? 0 : sf(l[n-1], 1) == "active_slabs" ? nu(sf(l[n-1], 2), 32) : actv(l, a, n - 1)
rec malv(l [int]string, a int, n int) int #2 = n <= a ? 0 : sf(l[n-1], 1) == "total_malloced" ? nu(sf(l[n-1], 2), 64) : malv(l, a, n - 1)
pred slabok(s string) bool = statline(s) && (sf(s, 1) == "active_slabs" ? isu(sf(s, 2), 32) : sf(s, 1) == "total_malloced" ? isu(sf(s, 2), 64) : slgood(sf(s, 1), sf(s, 2)))
pred itemok(s string) bool = statline(s) && itgood(sf(s, 1), sf(s, 2))

func (*Client).GetSlabsStats(c)(r, err)
  prop C20
  requires cl(c)
  modifies c.parser.item, c.parser.lastErr, lpos(c.scanner), scerr(c.scanner), all outlen, all out, all werr, all flushes, all slpos
  let sc = c.scanner
  let l0 = lpos(c.scanner)
  let L = lines(c.scanner)
  inv lpos(sc) >= l0
  inv forall k {L[k]} :: l0 <= k && k < lpos(sc) ==> slabok(L[k])
  inv $result.Slabs != nil
  inv slids($result)
  inv arr($result.SlabIDs) == null || fresh($result.SlabIDs)
  inv forall c {inmap($result.Slabs, c)} :: inmap($result.Slabs, c) <==> slseen(L, l0, lpos(sc), c)
  inv forall c {$result.Slabs[c].ChunkSize} {slChunkSize(L, l0, lpos(sc), c)} :: slChunkSize(L, l0, lpos(sc), c) == (inmap($result.Slabs, c) ? $result.Slabs[c].ChunkSize : 0)
  inv forall c {$result.Slabs[c].ChunksPerPage} {slChunksPerPage(L, l0, lpos(sc), c)} :: slChunksPerPage(L, l0, lpos(sc), c) == (inmap($result.Slabs, c) ? $result.Slabs[c].ChunksPerPage : 0)
  inv forall c {$result.Slabs[c].TotalPages} {slTotalPages(L, l0, lpos(sc), c)} :: slTotalPages(L, l0, lpos(sc), c) == (inmap($result.Slabs, c) ? $result.Slabs[c].TotalPages : 0)
  inv forall c {$result.Slabs[c].TotalChunks} {slTotalChunks(L, l0, lpos(sc), c)} :: slTotalChunks(L, l0, lpos(sc), c) == (inmap($result.Slabs, c) ? $result.Slabs[c].TotalChunks : 0)
  inv forall c {$result.Slabs[c].UsedChunks} {slUsedChunks(L, l0, lpos(sc), c)} :: slUsedChunks(L, l0, lpos(sc), c) == (inmap($result.Slabs, c) ? $result.Slabs[c].UsedChunks : 0)
  inv $result.ActiveSlabs == actv(L, l0, lpos(sc))
  inv $result.TotalMalloced == malv(L, l0, lpos(sc))
  ensures @C20 err == nil ==> lpos(sc) > l0 && endline(L[lpos(sc)-1])
  ensures @C20 err == nil ==> forall k {L[k]} :: l0 <= k && k < lpos(sc) - 1 ==> slabok(L[k])
  ensures @C20 err == nil ==> r.Slabs != nil && (forall i, j {r.SlabIDs[i], r.SlabIDs[j]} :: 0 <= i && i < j && j < len(r.SlabIDs) ==> r.SlabIDs[i] != r.SlabIDs[j])
  ensures @C20 err == nil ==> forall i {r.SlabIDs[i]} :: 0 <= i && i < len(r.SlabIDs) ==> slseen(L, l0, lpos(sc) - 1, r.SlabIDs[i])
  ensures @C20 err == nil ==> forall c {inmap(r.Slabs, c)} :: (inmap(r.Slabs, c) <==> slseen(L, l0, lpos(sc) - 1, c)) && (inmap(r.Slabs, c) ==> 0 <= slpos(r.Slabs)[c] && slpos(r.Slabs)[c] < len(r.SlabIDs) && r.SlabIDs[slpos(r.Slabs)[c]] == c)
  ensures @C20 err == nil ==> forall c {r.Slabs[c].ChunkSize} :: inmap(r.Slabs, c) ==> r.Slabs[c].ChunkSize == slChunkSize(L, l0, lpos(sc) - 1, c)
  ensures @C20 err == nil ==> forall c {r.Slabs[c].ChunksPerPage} :: inmap(r.Slabs, c) ==> r.Slabs[c].ChunksPerPage == slChunksPerPage(L, l0, lpos(sc) - 1, c)
  ensures @C20 err == nil ==> forall c {r.Slabs[c].TotalPages} :: inmap(r.Slabs, c) ==> r.Slabs[c].TotalPages == slTotalPages(L, l0, lpos(sc) - 1, c)
  ensures @C20 err == nil ==> forall c {r.Slabs[c].TotalChunks} :: inmap(r.Slabs, c) ==> r.Slabs[c].TotalChunks == slTotalChunks(L, l0, lpos(sc) - 1, c)
  ensures @C20 err == nil ==> forall c {r.Slabs[c].UsedChunks} :: inmap(r.Slabs, c) ==> r.Slabs[c].UsedChunks == slUsedChunks(L, l0, lpos(sc) - 1, c)
  ensures @C20 err == nil ==> r.ActiveSlabs == actv(L, l0, lpos(sc) - 1)
  ensures @C20 err == nil ==> r.TotalMalloced == malv(L, l0, lpos(sc) - 1)

func (*Client).GetSlabItemsStats(c)(r, err)
  prop C20
  requires cl(c)
  modifies c.parser.item, c.parser.lastErr, lpos(c.scanner), scerr(c.scanner), all outlen, all out, all werr, all flushes, all slpos
  let sc = c.scanner
  let l0 = lpos(c.scanner)
  let L = lines(c.scanner)
  inv lpos(sc) >= l0
  inv forall k {L[k]} :: l0 <= k && k < lpos(sc) ==> itemok(L[k])
  inv $result.Slabs != nil
  inv itids($result)
  inv arr($result.SlabIDs) == null || fresh($result.SlabIDs)
  inv forall c {inmap($result.Slabs, c)} :: inmap($result.Slabs, c) <==> itseen(L, l0, lpos(sc), c)
  inv forall c {$result.Slabs[c].Number} {itNumber(L, l0, lpos(sc), c)} :: itNumber(L, l0, lpos(sc), c) == (inmap($result.Slabs, c) ? $result.Slabs[c].Number : 0)
  inv forall c {$result.Slabs[c].NumberHot} {itNumberHot(L, l0, lpos(sc), c)} :: itNumberHot(L, l0, lpos(sc), c) == (inmap($result.Slabs, c) ? $result.Slabs[c].NumberHot : 0)
  inv forall c {$result.Slabs[c].NumberWarm} {itNumberWarm(L, l0, lpos(sc), c)} :: itNumberWarm(L, l0, lpos(sc), c) == (inmap($result.Slabs, c) ? $result.Slabs[c].NumberWarm : 0)
  inv forall c {$result.Slabs[c].NumberCold} {itNumberCold(L, l0, lpos(sc), c)} :: itNumberCold(L, l0, lpos(sc), c) == (inmap($result.Slabs, c) ? $result.Slabs[c].NumberCold : 0)
  inv forall c {$result.Slabs[c].AgeHot} {itAgeHot(L, l0, lpos(sc), c)} :: itAgeHot(L, l0, lpos(sc), c) == (inmap($result.Slabs, c) ? $result.Slabs[c].AgeHot : 0)
  inv forall c {$result.Slabs[c].AgeWarm} {itAgeWarm(L, l0, lpos(sc), c)} :: itAgeWarm(L, l0, lpos(sc), c) == (inmap($result.Slabs, c) ? $result.Slabs[c].AgeWarm : 0)
  inv forall c {$result.Slabs[c].Age} {itAge(L, l0, lpos(sc), c)} :: itAge(L, l0, lpos(sc), c) == (inmap($result.Slabs, c) ? $result.Slabs[c].Age : 0)
  inv forall c {$result.Slabs[c].MemRequested} {itMemRequested(L, l0, lpos(sc), c)} :: itMemRequested(L, l0, lpos(sc), c) == (inmap($result.Slabs, c) ? $result.Slabs[c].MemRequested : 0)
  inv forall c {$result.Slabs[c].Evicted} {itEvicted(L, l0, lpos(sc), c)} :: itEvicted(L, l0, lpos(sc), c) == (inmap($result.Slabs, c) ? $result.Slabs[c].Evicted : 0)
  inv forall c {$result.Slabs[c].EvictedNonZero} {itEvictedNonZero(L, l0, lpos(sc), c)} :: itEvictedNonZero(L, l0, lpos(sc), c) == (inmap($result.Slabs, c) ? $result.Slabs[c].EvictedNonZero : 0)
  inv forall c {$result.Slabs[c].EvictedTime} {itEvictedTime(L, l0, lpos(sc), c)} :: itEvictedTime(L, l0, lpos(sc), c) == (inmap($result.Slabs, c) ? $result.Slabs[c].EvictedTime : 0)
  inv forall c {$result.Slabs[c].OutOfMemory} {itOutOfMemory(L, l0, lpos(sc), c)} :: itOutOfMemory(L, l0, lpos(sc), c) == (inmap($result.Slabs, c) ? $result.Slabs[c].OutOfMemory : 0)
  inv forall c {$result.Slabs[c].TailRepairs} {itTailRepairs(L, l0, lpos(sc), c)} :: itTailRepairs(L, l0, lpos(sc), c) == (inmap($result.Slabs, c) ? $result.Slabs[c].TailRepairs : 0)
  inv forall c {$result.Slabs[c].Reclaimed} {itReclaimed(L, l0, lpos(sc), c)} :: itReclaimed(L, l0, lpos(sc), c) == (inmap($result.Slabs, c) ? $result.Slabs[c].Reclaimed : 0)
  inv forall c {$result.Slabs[c].ExpiredUnfetched} {itExpiredUnfetched(L, l0, lpos(sc), c)} :: itExpiredUnfetched(L, l0, lpos(sc), c) == (inmap($result.Slabs, c) ? $result.Slabs[c].ExpiredUnfetched : 0)
  inv forall c {$result.Slabs[c].EvictedUnfetched} {itEvictedUnfetched(L, l0, lpos(sc), c)} :: itEvictedUnfetched(L, l0, lpos(sc), c) == (inmap($result.Slabs, c) ? $result.Slabs[c].EvictedUnfetched : 0)
  inv forall c {$result.Slabs[c].EvictedActive} {itEvictedActive(L, l0, lpos(sc), c)} :: itEvictedActive(L, l0, lpos(sc), c) == (inmap($result.Slabs, c) ? $result.Slabs[c].EvictedActive : 0)
  inv forall c {$result.Slabs[c].CrawlerReclaimed} {itCrawlerReclaimed(L, l0, lpos(sc), c)} :: itCrawlerReclaimed(L, l0, lpos(sc), c) == (inmap($result.Slabs, c) ? $result.Slabs[c].CrawlerReclaimed : 0)
  inv forall c {$result.Slabs[c].CrawlerItemsChecked} {itCrawlerItemsChecked(L, l0, lpos(sc), c)} :: itCrawlerItemsChecked(L, l0, lpos(sc), c) == (inmap($result.Slabs, c) ? $result.Slabs[c].CrawlerItemsChecked : 0)
  inv forall c {$result.Slabs[c].LRUTailRefLocked} {itLRUTailRefLocked(L, l0, lpos(sc), c)} :: itLRUTailRefLocked(L, l0, lpos(sc), c) == (inmap($result.Slabs, c) ? $result.Slabs[c].LRUTailRefLocked : 0)
  inv forall c {$result.Slabs[c].MovesToCold} {itMovesToCold(L, l0, lpos(sc), c)} :: itMovesToCold(L, l0, lpos(sc), c) == (inmap($result.Slabs, c) ? $result.Slabs[c].MovesToCold : 0)
  inv forall c {$result.Slabs[c].MovesToWarm} {itMovesToWarm(L, l0, lpos(sc), c)} :: itMovesToWarm(L, l0, lpos(sc), c) == (inmap($result.Slabs, c) ? $result.Slabs[c].MovesToWarm : 0)
  inv forall c {$result.Slabs[c].MovesWithinLRU} {itMovesWithinLRU(L, l0, lpos(sc), c)} :: itMovesWithinLRU(L, l0, lpos(sc), c) == (inmap($result.Slabs, c) ? $result.Slabs[c].MovesWithinLRU : 0)
  inv forall c {$result.Slabs[c].DirectReclaims} {itDirectReclaims(L, l0, lpos(sc), c)} :: itDirectReclaims(L, l0, lpos(sc), c) == (inmap($result.Slabs, c) ? $result.Slabs[c].DirectReclaims : 0)
  inv forall c {$result.Slabs[c].HitsToHot} {itHitsToHot(L, l0, lpos(sc), c)} :: itHitsToHot(L, l0, lpos(sc), c) == (inmap($result.Slabs, c) ? $result.Slabs[c].HitsToHot : 0)
  inv forall c {$result.Slabs[c].HitsToWarm} {itHitsToWarm(L, l0, lpos(sc), c)} :: itHitsToWarm(L, l0, lpos(sc), c) == (inmap($result.Slabs, c) ? $result.Slabs[c].HitsToWarm : 0)
  inv forall c {$result.Slabs[c].HitsToCold} {itHitsToCold(L, l0, lpos(sc), c)} :: itHitsToCold(L, l0, lpos(sc), c) == (inmap($result.Slabs, c) ? $result.Slabs[c].HitsToCold : 0)
  inv forall c {$result.Slabs[c].HitsToTemp} {itHitsToTemp(L, l0, lpos(sc), c)} :: itHitsToTemp(L, l0, lpos(sc), c) == (inmap($result.Slabs, c) ? $result.Slabs[c].HitsToTemp : 0)
  ensures @C20 err == nil ==> lpos(sc) > l0 && endline(L[lpos(sc)-1])
  ensures @C20 err == nil ==> forall k {L[k]} :: l0 <= k && k < lpos(sc) - 1 ==> itemok(L[k])
  ensures @C20 err == nil ==> r.Slabs != nil && (forall i, j {r.SlabIDs[i], r.SlabIDs[j]} :: 0 <= i && i < j && j < len(r.SlabIDs) ==> r.SlabIDs[i] != r.SlabIDs[j])
  ensures @C20 err == nil ==> forall i {r.SlabIDs[i]} :: 0 <= i && i < len(r.SlabIDs) ==> itseen(L, l0, lpos(sc) - 1, r.SlabIDs[i])
  ensures @C20 err == nil ==> forall c {inmap(r.Slabs, c)} :: (inmap(r.Slabs, c) <==> itseen(L, l0, lpos(sc) - 1, c)) && (inmap(r.Slabs, c) ==> 0 <= slpos(r.Slabs)[c] && slpos(r.Slabs)[c] < len(r.SlabIDs) && r.SlabIDs[slpos(r.Slabs)[c]] == c)
  ensures @C20 err == nil ==> forall c {r.Slabs[c].Number} :: inmap(r.Slabs, c) ==> r.Slabs[c].Number == itNumber(L, l0, lpos(sc) - 1, c)
  ensures @C20 err == nil ==> forall c {r.Slabs[c].NumberHot} :: inmap(r.Slabs, c) ==> r.Slabs[c].NumberHot == itNumberHot(L, l0, lpos(sc) - 1, c)
  ensures @C20 err == nil ==> forall c {r.Slabs[c].NumberWarm} :: inmap(r.Slabs, c) ==> r.Slabs[c].NumberWarm == itNumberWarm(L, l0, lpos(sc) - 1, c)
  ensures @C20 err == nil ==> forall c {r.Slabs[c].NumberCold} :: inmap(r.Slabs, c) ==> r.Slabs[c].NumberCold == itNumberCold(L, l0, lpos(sc) - 1, c)
  ensures @C20 err == nil ==> forall c {r.Slabs[c].AgeHot} :: inmap(r.Slabs, c) ==> r.Slabs[c].AgeHot == itAgeHot(L, l0, lpos(sc) - 1, c)
  ensures @C20 err == nil ==> forall c {r.Slabs[c].AgeWarm} :: inmap(r.Slabs, c) ==> r.Slabs[c].AgeWarm == itAgeWarm(L, l0, lpos(sc) - 1, c)
  ensures @C20 err == nil ==> forall c {r.Slabs[c].Age} :: inmap(r.Slabs, c) ==> r.Slabs[c].Age == itAge(L, l0, lpos(sc) - 1, c)
  ensures @C20 err == nil ==> forall c {r.Slabs[c].MemRequested} :: inmap(r.Slabs, c) ==> r.Slabs[c].MemRequested == itMemRequested(L, l0, lpos(sc) - 1, c)
  ensures @C20 err == nil ==> forall c {r.Slabs[c].Evicted} :: inmap(r.Slabs, c) ==> r.Slabs[c].Evicted == itEvicted(L, l0, lpos(sc) - 1, c)
  ensures @C20 err == nil ==> forall c {r.Slabs[c].EvictedNonZero} :: inmap(r.Slabs, c) ==> r.Slabs[c].EvictedNonZero == itEvictedNonZero(L, l0, lpos(sc) - 1, c)
  ensures @C20 err == nil ==> forall c {r.Slabs[c].EvictedTime} :: inmap(r.Slabs, c) ==> r.Slabs[c].EvictedTime == itEvictedTime(L, l0, lpos(sc) - 1, c)
  ensures @C20 err == nil ==> forall c {r.Slabs[c].OutOfMemory} :: inmap(r.Slabs, c) ==> r.Slabs[c].OutOfMemory == itOutOfMemory(L, l0, lpos(sc) - 1, c)
  ensures @C20 err == nil ==> forall c {r.Slabs[c].TailRepairs} :: inmap(r.Slabs, c) ==> r.Slabs[c].TailRepairs == itTailRepairs(L, l0, lpos(sc) - 1, c)
  ensures @C20 err == nil ==> forall c {r.Slabs[c].Reclaimed} :: inmap(r.Slabs, c) ==> r.Slabs[c].Reclaimed == itReclaimed(L, l0, lpos(sc) - 1, c)
  ensures @C20 err == nil ==> forall c {r.Slabs[c].ExpiredUnfetched} :: inmap(r.Slabs, c) ==> r.Slabs[c].ExpiredUnfetched == itExpiredUnfetched(L, l0, lpos(sc) - 1, c)
  ensures @C20 err == nil ==> forall c {r.Slabs[c].EvictedUnfetched} :: inmap(r.Slabs, c) ==> r.Slabs[c].EvictedUnfetched == itEvictedUnfetched(L, l0, lpos(sc) - 1, c)
  ensures @C20 err == nil ==> forall c {r.Slabs[c].EvictedActive} :: inmap(r.Slabs, c) ==> r.Slabs[c].EvictedActive == itEvictedActive(L, l0, lpos(sc) - 1, c)
  ensures @C20 err == nil ==> forall c {r.Slabs[c].CrawlerReclaimed} :: inmap(r.Slabs, c) ==> r.Slabs[c].CrawlerReclaimed == itCrawlerReclaimed(L, l0, lpos(sc) - 1, c)
  ensures @C20 err == nil ==> forall c {r.Slabs[c].CrawlerItemsChecked} :: inmap(r.Slabs, c) ==> r.Slabs[c].CrawlerItemsChecked == itCrawlerItemsChecked(L, l0, lpos(sc) - 1, c)
  ensures @C20 err == nil ==> forall c {r.Slabs[c].LRUTailRefLocked} :: inmap(r.Slabs, c) ==> r.Slabs[c].LRUTailRefLocked == itLRUTailRefLocked(L, l0, lpos(sc) - 1, c)
  ensures @C20 err == nil ==> forall c {r.Slabs[c].MovesToCold} :: inmap(r.Slabs, c) ==> r.Slabs[c].MovesToCold == itMovesToCold(L, l0, lpos(sc) - 1, c)
  ensures @C20 err == nil ==> forall c {r.Slabs[c].MovesToWarm} :: inmap(r.Slabs, c) ==> r.Slabs[c].MovesToWarm == itMovesToWarm(L, l0, lpos(sc) - 1, c)
  ensures @C20 err == nil ==> forall c {r.Slabs[c].MovesWithinLRU} :: inmap(r.Slabs, c) ==> r.Slabs[c].MovesWithinLRU == itMovesWithinLRU(L, l0, lpos(sc) - 1, c)
  ensures @C20 err == nil ==> forall c {r.Slabs[c].DirectReclaims} :: inmap(r.Slabs, c) ==> r.Slabs[c].DirectReclaims == itDirectReclaims(L, l0, lpos(sc) - 1, c)
  ensures @C20 err == nil ==> forall c {r.Slabs[c].HitsToHot} :: inmap(r.Slabs, c) ==> r.Slabs[c].HitsToHot == itHitsToHot(L, l0, lpos(sc) - 1, c)
  ensures @C20 err == nil ==> forall c {r.Slabs[c].HitsToWarm} :: inmap(r.Slabs, c) ==> r.Slabs[c].HitsToWarm == itHitsToWarm(L, l0, lpos(sc) - 1, c)
  ensures @C20 err == nil ==> forall c {r.Slabs[c].HitsToCold} :: inmap(r.Slabs, c) ==> r.Slabs[c].HitsToCold == itHitsToCold(L, l0, lpos(sc) - 1, c)
  ensures @C20 err == nil ==> forall c {r.Slabs[c].HitsToTemp} :: inmap(r.Slabs, c) ==> r.Slabs[c].HitsToTemp == itHitsToTemp(L, l0, lpos(sc) - 1, c)

// ---- one line of a metadata dump: name=value pairs
extern "net/url.PathUnescape"(s)(r, err)
  ensures err == nil <==> uf("unescok", bool, s)
  ensures err == nil ==> r == uf("unesc", string, s)
pred mdn(l string) int = uf("splitlen", int, l, " ")
pred mdp(l string, i int) string = uf("splitat", string, l, " ", i)
pred mdc(l string, i int) int = uf("splitlen", int, mdp(l, i), "=")
pred mdk(l string, i int) string = uf("splitat", string, mdp(l, i), "=", 0)
pred mdv(l string, i int) string = uf("splitat", string, mdp(l, i), "=", 1)
rec mdKey(l string, n int) string #2 = n <= 0 ? "" : mdk(l, n-1) == "key" ? uf("unesc", string, mdv(l, n-1)) : mdKey(l, n - 1)
rec mdFetch(l string, n int) bool #2 = n <= 0 ? false : mdk(l, n-1) == "fetch" ? mdv(l, n-1) == "yes" : mdFetch(l, n - 1)
rec mdExp(l string, n int) int #2 = n <= 0 ? 0 : mdk(l, n-1) == "exp" ? uf("numvali", int, mdv(l, n-1), 10, 64) : mdExp(l, n - 1)
rec mdLA(l string, n int) int #2 = n <= 0 ? 0 : mdk(l, n-1) == "la" ? uf("numvali", int, mdv(l, n-1), 10, 64) : mdLA(l, n - 1)
rec mdCAS(l string, n int) int #2 = n <= 0 ? 0 : mdk(l, n-1) == "cas" ? uf("numvalu", int, mdv(l, n-1), 10, 64) : mdCAS(l, n - 1)
rec mdClass(l string, n int) int #2 = n <= 0 ? 0 : mdk(l, n-1) == "cls" ? uf("numvalu", int, mdv(l, n-1), 10, 32) : mdClass(l, n - 1)
rec mdSize(l string, n int) int #2 = n <= 0 ? 0 : mdk(l, n-1) == "size" ? uf("numvalu", int, mdv(l, n-1), 10, 32) : mdSize(l, n - 1)
pred mdpair(l string, i int) bool = mdc(l, i) >= 2 && (mdk(l, i) == "key" ==> uf("unescok", bool, mdv(l, i))) && (mdk(l, i) == "exp" ==> uf("isnumi", bool, mdv(l, i), 10, 64)) && (mdk(l, i) == "la" ==> uf("isnumi", bool, mdv(l, i), 10, 64)) && (mdk(l, i) == "cas" ==> uf("isnumu", bool, mdv(l, i), 10, 64)) && (mdk(l, i) == "cls" ==> uf("isnumu", bool, mdv(l, i), 10, 32)) && (mdk(l, i) == "size" ==> uf("isnumu", bool, mdv(l, i), 10, 32))
pred mdline(l string) bool = forall i {mdp(l, i)} :: 0 <= i && i < mdn(l) ==> mdpair(l, i)

func parseMetaDumpKey(line)(r, err)
  prop C20
  modifies nothing
  inv forall i {mdp(line, i)} :: 0 <= i && i < $i + 1 ==> mdpair(line, i)
  inv $result.Key == mdKey(line, $i + 1)
  inv $result.Fetch == mdFetch(line, $i + 1)
  inv $result.Exp == mdExp(line, $i + 1)
  inv $result.LA == mdLA(line, $i + 1)
  inv $result.CAS == mdCAS(line, $i + 1)
  inv $result.Class == mdClass(line, $i + 1)
  inv $result.Size == mdSize(line, $i + 1)
  ensures @C20 err == nil ==> mdline(line)
  ensures @C20 err != nil ==> !mdline(line)
  ensures @C20 err == nil ==> r.Key == mdKey(line, mdn(line))
  ensures @C20 err == nil ==> r.Fetch == mdFetch(line, mdn(line))
  ensures @C20 err == nil ==> r.Exp == mdExp(line, mdn(line))
  ensures @C20 err == nil ==> r.LA == mdLA(line, mdn(line))
  ensures @C20 err == nil ==> r.CAS == mdCAS(line, mdn(line))
  ensures @C20 err == nil ==> r.Class == mdClass(line, mdn(line))
  ensures @C20 err == nil ==> r.Size == mdSize(line, mdn(line))

ghost dumped(int) int    // keys handed to the caller
extern "fn:stats.(*Client).MetaDumpAll.scanFunc"(key)
  modifies dumped(0)
  ensures dumped(0) == old(dumped(0)) + 1

func (*Client).MetaDumpAll(c, scanFunc)(err)
  prop C20
  requires cl(c) && scanFunc != nil
  modifies lpos(c.scanner), scerr(c.scanner), dumped(0), all outlen, all out, all werr, all flushes
  let sc = c.scanner
  let l0 = lpos(c.scanner)
  let d0 = dumped(0)
  let L = lines(c.scanner)
  inv dumped(0) - d0 == lpos(sc) - l0
  inv forall k {L[k]} :: l0 <= k && k < lpos(sc) ==> mdline(L[k]) && L[k] != "END"
  atcall "fn:stats.(*Client).MetaDumpAll.scanFunc" @C20 dumped(0) - d0 == lpos(sc) - 1 - l0 && key.Key == mdKey(L[lpos(sc)-1], mdn(L[lpos(sc)-1])) && key.Fetch == mdFetch(L[lpos(sc)-1], mdn(L[lpos(sc)-1])) && key.Exp == mdExp(L[lpos(sc)-1], mdn(L[lpos(sc)-1])) && key.LA == mdLA(L[lpos(sc)-1], mdn(L[lpos(sc)-1])) && key.CAS == mdCAS(L[lpos(sc)-1], mdn(L[lpos(sc)-1])) && key.Class == mdClass(L[lpos(sc)-1], mdn(L[lpos(sc)-1])) && key.Size == mdSize(L[lpos(sc)-1], mdn(L[lpos(sc)-1]))
  ensures @C20 err == nil ==> lpos(sc) > l0 && L[lpos(sc)-1] == "END" && dumped(0) - d0 == lpos(sc) - 1 - l0
  ensures @C20 err == nil ==> forall k {L[k]} :: l0 <= k && k < lpos(sc) - 1 ==> mdline(L[k]) && L[k] != "END"

// ---- a client
extern "bufio.NewScanner"(r)(sc)
  ensures sc != nil && fresh(sc)
extern "fn:stats.Option"(conf)
  requires conf != nil
  modifies *conf
  ensures conf.errorLogger != nil && (forall i :: 0 <= i < len(conf.connOptions) ==> conf.connOptions[i] != nil)
func newStatsParser(scanner)(r)
  prop C20
  ensures r != nil && fresh(r) && r.scanner == scanner
func New(addr, options)(r)
  prop C20
  requires forall i :: 0 <= i < len(options) ==> options[i] != nil
  modifies all dials, all dialed, all cfgr, all cfgw, all closes
  inv $conf.errorLogger != nil && (forall i :: 0 <= i < len($conf.connOptions) ==> $conf.connOptions[i] != nil)
  ensures @C20 r != nil && cl(r)
