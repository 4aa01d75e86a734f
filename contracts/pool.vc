package memcache

// Every value in a pool is a buffer that really has the room of its size class.
pred slot(p ref, need int) = iselem(p) && eidx(p) >= 0 && eidx(p) + need <= alen(ebase(p))

pred poolinv(p ref, v iface) =
  (iselem(p) && ebase(p) == arr(getDataPools) ==> is(*byte, v) && slot(as(*byte, v), 64 * pow2(eidx(p) - off(getDataPools))))
  && (iselem(p) && ebase(p) == arr(responseBinaryPools) ==> is(*"[]byte", v) && slot(as(*"[]byte", v), 4 * pow2(eidx(p) - off(responseBinaryPools))))
  && (infield("pipelineCommandListPool.pool", p) ==> is(**pipelineCmd, v) && slot(as(**pipelineCmd, v), owner("pipelineCommandListPool.pool", p).listSize))
  && (p == &pipelineCmdPool ==> is(*pipelineCmd, v) && as(*pipelineCmd, v) != nil
        && as(*pipelineCmd, v).isRead == false && as(*pipelineCmd, v).resp == nil && as(*pipelineCmd, v).err == nil)
  && (infield("bytesPool.pool", p) ==> is("[]byte", v) && len(as("[]byte", v)) == 0)

check immutable "pipelineCommandListPool.listSize"
typeinv pipelineCommandListPool(p): p.listSize >= 1 && p.listSize <= 1073741824

func init prop C16

func getByteSlice(size)(r)
  prop C16 C03
  requires size <= 1099511627776
  ensures @C16 len(r) == size
  ensures size == 0 ==> r == nil
  ensures size > 0 ==> fresh(r) && off(r) >= 0 && off(r) + cap(r) <= alen(arr(r))

func releaseByteSlice(data)
  prop C16
  modifies content(data)

func getResponseBinaries(size)(r)
  prop C16
  ensures @C16 len(r) == 0 && cap(r) >= size
  ensures size > 0 ==> fresh(r)

func putResponseBinaries(data)
  prop C16
  modifies content(data)

func putPipelineCmdToPool(cmd)
  prop C16
  requires cmd != nil
  modifies *cmd

func getPipelineCmdFromPool()(r)
  prop C16
  ensures r != nil && fresh(r) && r.isRead == false && r.resp == nil && r.err == nil

func newPipelineCommandListPool(options)(r)
  prop C16
  requires forall i :: 0 <= i < len(options) ==> options[i] != nil
  ensures r != nil && fresh(r)

func (*pipelineCommandListPool).getCommandList(p)(r)
  prop C16 C17
  ensures len(r) == 0 && cap(r) >= p.listSize && fresh(r)

func (*pipelineCommandListPool).putCommandList(p, cmdList)
  prop C16
  modifies content(cmdList)

// configuration functions given by the caller: trusted to keep the sizes usable
pred usable(opts *memcacheOptions) =
  1 <= opts.maxCommandsPerBatch <= 1073741824 && 1 <= opts.bufferSize <= 1073741824 && 0 <= opts.writeLimit <= 1073741824 && opts.dialErrorLogger != nil

extern "fn:memcache.Option"(opts)
  modifies *opts
  ensures usable(opts)

func computeOptions(options)(r)
  prop C16 C17
  requires forall i :: 0 <= i < len(options) ==> options[i] != nil
  ensures r != nil && fresh(r) && usable(r)
  inv usable($opts)
