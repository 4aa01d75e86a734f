#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements stay readable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=[],observe=[]):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
M="memcache/"
p("C01","Request bytes are exactly the encoding of the issued commands, in order",
 "For every sequence of pipelined commands, the bytes written to the server are exactly the concatenation, in issue order, of each command's text encoding: verb, key, exactly the requested option flags with their exact decimal values, CRLF, and for a set the declared length followed by exactly the caller's value bytes and CRLF. No option that was not requested appears, and no byte of one command leaks into another.",
 ["inputs","histories"],"every key, value (any length and content), every option value in the full uint32/uint64 range, every sequence of commands, every split of the writes",
 "The unit tests compare a few literal encodings; number widths, buffer growth/reuse and the interleaving of values with request lines vary over an unbounded space.",
 [M+"builder.go",M+"command.go"],
 [("request encoder","memcache/builder.go addMGet/addMSet/addMDel/addVersion/addFlushAll/appendNumber"),("interleaving writer","memcache/command.go writeToWriter")],
 [("request text","encoded request lines of a batch","memcache/command.go commandListData.requestData"),("value blocks","values with the offset they are spliced in at","memcache/command.go commandListData.requestBinaries")],
 ["bytes handed to the connection's writer"])
p("C02","Only well-formed keys are accepted, and rejected keys send nothing",
 "A keyed command is accepted exactly when its key is 1 to 250 bytes long and every byte is a printable, non-space ASCII character (0x21 to 0x7E). Any other key yields an error that says why (empty, bad format, too long), issues no command, and leaves the other commands of the pipeline untouched, so no key can inject protocol text.",
 ["inputs"],"every byte string used as key, valid UTF-8 or not, of every length, for get, set and delete",
 "The tests try a handful of keys; the accepted language is a statement about all byte strings and all three entry points.",
 [M+"pipeline.go"],[("key validation","memcache/pipeline.go validateKeyFormat"),("entry points","memcache/pipeline.go MGet/MGetFast/MSet/MDel")],[],
 ["error of the returned function","bytes written to the server"])
p("C03","Reply framing does not depend on how the stream is split into reads",
 "For every byte stream from the server and every way it is cut into reads, the client delimits the same sequence of replies with the same text and the same value bytes as when it is delivered one byte at a time. Bytes after a complete reply are kept, in order and exactly once, for the next reply.",
 ["inputs","schedules"],"every byte stream, every segmentation into reads (including one-byte reads and several replies in one read)",
 "The tests feed a few hand-picked fragments of a few replies; the framing automaton must agree with its byte-wise meaning in every state for every remaining buffer.",
 [M+"reader.go"],[("framing automaton","memcache/reader.go responseReader.recv and its state handlers, readNextData")],
 [("automaton state","where in a reply the reader is","memcache/reader.go responseReader.state"),("pending bytes","bytes already read that belong to later replies","memcache/reader.go responseReader.remainingData")],
 ["reply text and value blocks stored for each batch"])
p("C04","Replies are decoded to exactly what the server said",
 "For every well-formed reply the decoded result equals the reply: kind, the win/stale/already-won flags, the CAS number, the value bytes, the version string, and for server/client error replies the exact message, and exactly that one reply is consumed. A reply that is not valid for its command is reported as an error and never as a success.",
 ["inputs"],"every reply line the grammar allows for each command kind (any flags in any order, any 64-bit CAS, any message, any value), at any position of a batch's reply text",
 "The tests decode fixed examples; flag combinations, numbers and trailing replies form an unbounded set.",
 [M+"parser.go"],[("reply decoders","memcache/parser.go readMGet/readMSet/readMDel/readVersion/readFlushAll/readError"),("flag and number scanning","memcache/parser.go parseMGetFlags/findNumber/findCRLF")],
 [("reply cursor","rest of the batch's reply text","memcache/parser.go parser.data"),("value cursor","rest of the batch's value blocks","memcache/parser.go parser.binaries")],
 ["values returned by the result functions"])
p("C05","No bytes from the server can crash or hang the client",
 "Whatever bytes the server sends, the code that frames and decodes replies never panics, never indexes or slices out of range, never loops without consuming input, and never tries to reserve memory for a value larger than the protocol's maximum item. Malformed input ends in an error for the affected commands.",
 ["inputs"],"every byte sequence received, for every sequence of command kinds it is decoded against",
 "Tests exercise replies a correct server sends plus a few malformed ones; absence of panics and termination are statements about all byte strings.",
 [M+"parser.go",M+"reader.go",M+"pool.go"],[("reply decoders","memcache/parser.go"),("framing automaton","memcache/reader.go"),("value buffers","memcache/pool.go getByteSlice")],[],
 ["process stays up","commands return"])
p("C06","Every command of a pipeline receives its own reply",
 "The n-th command of a pipeline is resolved with the n-th reply of that pipeline, across batch boundaries and for every mix of command kinds. If the connection fails for a batch, every command of that batch reports an error, and after a reply that cannot be decoded no later command of the same batch reports a success taken from a misaligned reply.",
 ["inputs","histories","fault_sequences"],"every mix and number of commands, every batch limit, every reply sequence, every failing batch",
 "Attribution is a statement about all positions, mixes and failures; the tests look at short fixed pipelines, and most pipeline tests need a live server.",
 [M+"pipeline.go",M+"builder.go"],[("positional resolution","memcache/pipeline.go parseCommands/parseCommandsForSingleCommandData")],
 [("pending commands","commands of the current session in issue order","memcache/pipeline.go pipelineSession.currentCmdList")],
 ["values and errors returned by the result functions"])
p("C07","Sent batches are matched to replies in exactly the order they were sent",
 "The queue between the writing side and the receiving side delivers every batch exactly once, in the order in which it was written, never overwrites a batch that was not yet taken, and never hands out an empty slot. This holds for every interleaving of writer, receiver and close, and after any number of wrap-arounds.",
 ["schedules","histories"],"every interleaving of producer, consumer and close; every fill level and wrap-around position; every group size pushed or read",
 "Tests run a few sequential pushes and reads; wrap-around, partial pushes and concurrent close are reached by few schedules.",
 [M+"sender.go",M+"core.go"],[("ring buffer","memcache/sender.go recvBuffer.push/read/closeBuffer"),("receiver cursor","memcache/core.go cmdListReader")],
 [("ring","batches sent and not yet taken","memcache/sender.go recvBuffer.buf/begin/end")],["order in which batches complete"])
p("C08","A published pipeline is accepted in order exactly once, or refused as a whole",
 "Every pipeline handed to a connection is either appended exactly once to the submission queue, in publication order, or, when the connection is already shut down, refused so that every one of its batches completes with the connection-closed error. Draining returns all queued pipelines exactly once, and none is lost between the last drain and shutdown.",
 ["schedules","histories"],"every interleaving of publishers, drainer and close; pipelines of any number of batches",
 "Races between publish and close, and multi-batch pipelines after close, are not reached by the tests.",
 [M+"send_buffer.go",M+"sender.go"],[("submission queue","memcache/send_buffer.go push/popAll/close"),("refusal","memcache/sender.go publish")],
 [("queue","published and not yet drained pipelines","memcache/send_buffer.go sendBuffer")],["completion of published pipelines"])
p("C09","The write scheduler emits every accepted batch exactly once, fairly and in order",
 "Every batch handed to the write scheduler is emitted exactly once; batches of one pipeline keep their order, pipelines keep their arrival order except that long pipelines yield between batches, and at most the configured number is emitted per round. The scheduler never waits for replies while it holds batches it has already selected but not yet sent, and reports end of work only when nothing is left.",
 ["histories","schedules"],"every arrival pattern of pipelines of any number of batches, every limit, every interleaving with replies and close",
 "Tests use small scripted arrivals; the list surgery and the wait rule must hold for any history.",
 [M+"input_selector.go"],[("scheduler","memcache/input_selector.go getNextCommand/popAllThenRead/readCommands"),("lists","memcache/input_selector.go selectorCommandList")],
 [("waiting lists","new pipelines and continuations of long pipelines","memcache/input_selector.go inputSelector.inputList/longCmdList")],["order of batches written"])
p("C10","The in-flight limit is respected and every command is credited back exactly once",
 "A batch no larger than the configured write limit is only selected for writing while the commands written but not yet answered, including it, stay within the limit. Every batch written is counted once, and credited back exactly once as soon as its reply starts or its connection fails, so the limit neither leaks nor drifts.",
 ["histories","schedules","fault_sequences"],"every limit, every batch size, every interleaving of writes, replies and failures",
 "Accounting drift only shows after particular failure sequences; tests check single steps.",
 [M+"input_selector.go",M+"core.go"],[("limiter","memcache/input_selector.go connWriteLimiter"),("credit on reply or failure","memcache/core.go increaseReadCount.apply/readNextMemcacheCommandResponse")],
 [("written counter","commands written so far","memcache/input_selector.go connWriteLimiter.cmdWriteCount"),("answered counter","commands credited back so far","memcache/input_selector.go connWriteLimiter.cmdReadCount")],["number of unanswered commands at the server"])
p("C11","Every published batch completes exactly once",
 "Every batch of every published pipeline is signalled complete exactly once: with success only after all its replies were received, with the connection's error if its connection fails, or with the connection-closed error after shutdown. No batch is signalled twice and none is left waiting, so no caller blocks forever on a batch that was taken over or refused.",
 ["schedules","fault_sequences","histories"],"every reply stream, every failure point, every close point, every number of batches",
 "A missing or double completion needs a failure or close at a particular moment; tests with close use single-batch pipelines.",
 [M+"core.go",M+"sender.go",M+"pipeline.go",M+"command.go"],[("receive loop","memcache/core.go recvCommands/recvSingleCommandData"),("completion","memcache/command.go setCompleted/waitCompleted"),("refusal","memcache/sender.go publish")],
 [("completion channel","one slot per batch","memcache/command.go commandListData.ch")],["result functions return"])
p("C12","The first failure of a connection is sticky and closes it exactly once",
 "The first error recorded for a connection is the one every later user of that connection observes; later errors never replace it. Recording it closes the underlying connection exactly once and wakes the reconnector, and from then on nothing more is written to or read from that connection.",
 ["schedules","fault_sequences"],"every order in which read, write, flush, decode and shutdown failures hit the same connection",
 "Tests inject one failure at a time; the order of two failures on both sides of a connection is a schedule.",
 [M+"sender.go"],[("failure latch","memcache/sender.go senderConnection.setLastErrorAndCloseUnsafe/setLastErrorAndClose/readData"),("guarded write","memcache/sender.go sender.writeAndFlush")],
 [("latched error","first failure of the connection","memcache/sender.go senderConnection.lastErr")],["errors returned to callers","calls on the underlying connection"])
p("C13","A command is only ever answered from the connection it was written on",
 "A batch is written to, and its replies are read from, one and the same connection. After a connection is replaced, no byte received on the old connection is ever used as a reply for a batch written on the new one, and new batches never go to a connection already replaced.",
 ["fault_sequences","histories","schedules"],"every point at which a connection fails and is replaced, every amount of surplus bytes received before",
 "Needs surplus bytes or a failure at the moment of reconnecting; the tests reconnect with an empty reader.",
 [M+"core.go",M+"sender.go",M+"reader.go"],[("binding of batches to connections","memcache/sender.go sendToWriter"),("reader reset","memcache/core.go recvSingleCommandData, memcache/reader.go reset")],
 [("batch connection","connection a batch was written on","memcache/command.go commandListData.conn")],["replies attributed after a reconnect"])
p("C14","No lost wake-ups and no lock-order deadlock between the connection's goroutines",
 "Whenever a queue, limiter or error state changes so that a blocked goroutine could proceed, that goroutine is woken; a goroutine only goes to sleep while its condition is false; and no goroutine blocks waiting for another one while holding a lock that the other one needs to make progress. Locks are released on every path.",
 ["schedules"],"every interleaving of publishers, sender, receiver, reconnector, health checker and Close; every fill level of the queues",
 "A lost wake-up or lock cycle needs a specific schedule (for example a read error while the sent-queue is full); tests cannot enumerate schedules.",
 [M+"send_buffer.go",M+"sender.go",M+"input_selector.go",M+"core.go"],[("submission queue condition","memcache/send_buffer.go"),("sent-queue conditions","memcache/sender.go recvBuffer"),("limiter condition","memcache/input_selector.go connWriteLimiter"),("connection lock","memcache/sender.go sender.connMut")],[],["commands and Close return"])
p("C15","Shared connection state is only touched under its lock",
 "Every access to the shared mutable state of a connection (submission queue, sent-queue, current connection and shutdown flag, shutdown latch of the pool member) happens while the lock that protects it is held, or before the object is shared. The counters and flags read without a lock are atomic.",
 ["schedules"],"every interleaving of all goroutines, every code path",
 "Race detection on tests only sees the accesses the executed schedules perform.",
 [M+"send_buffer.go",M+"sender.go",M+"input_selector.go",M+"conn.go",M+"health.go"],[("lock discipline","memcache/send_buffer.go, memcache/sender.go, memcache/conn.go")],[],["race detector reports"])
p("C16","Pooled buffers have the right size and never have two owners",
 "A buffer obtained for n bytes or n slots has exactly the requested length (or an empty slice with at least that capacity) inside its own backing store, whatever size class it comes from; a buffer is returned only to the size class of its real capacity; and each internal buffer is returned at most once and not referenced by its old owner afterwards. Recycled containers never carry entries of their previous user.",
 ["inputs","histories"],"every requested size and every capacity over the full integer range, every allocate/release history of the internal buffers",
 "Size-class boundaries and release histories are unbounded; the tests sample a few sizes.",
 [M+"pool.go",M+"command.go"],[("size classes","memcache/pool.go getByteSlice/releaseByteSlice/getResponseBinaries/putResponseBinaries"),("release","memcache/command.go freeCommandRequestData/freeCommandResponseData")],
 [("pools","free buffers by size class","memcache/pool.go getDataPools/responseBinaryPools")],["contents of returned values"])
p("C17","Batches never exceed the configured size and partition the pipeline in order",
 "The commands of a pipeline are split into consecutive batches, each holding at most the configured maximum and every batch but the last holding exactly that many; the batch sizes add up to the number of commands and each batch's text and values hold exactly its own commands. Space for received values is sized by the gets of that batch.",
 ["inputs","histories"],"every number and mix of commands, every maximum from 1 up",
 "Tests check two or three batch boundaries for one command kind.",
 [M+"builder.go"],[("batch splitting","memcache/builder.go internalIncreaseCount/addNewCommand/internalResetMGetCount/finish")],
 [("batch list","batches of a pipeline in order","memcache/builder.go cmdBuilder.cmdList/cmd")],["batches written"])
p("C18","Result functions deliver once, and finishing a pipeline delivers everything",
 "Commands are sent no later than when any result function of the pipeline is called or the pipeline is executed or finished, and they are sent exactly once. Each result function returns its command's result on the first call and the already-gotten error on every later call, and after finishing nothing issued before is left unsent or unresolved.",
 ["histories"],"every sequence of issue, execute, finish and result calls on a pipeline",
 "Call orders are an unbounded set; the tests that exercise whole pipelines need a live server.",
 [M+"pipeline.go"],[("session life cycle","memcache/pipeline.go getCurrentSession/pushCommandsIfNotPublished/waitAndParseCmdData/Finish/Execute"),("one-shot results","memcache/pipeline.go pushAndWaitIfNotRead")],
 [("session flags","published, waited","memcache/pipeline.go pipelineSession.published/alreadyWaited")],["results and errors of the returned functions"])
p("C19","Connections are used round-robin and every idle one is pinged each round",
 "Pipelines are spread over the pool's connections in strict rotation, always choosing an existing connection. In every health-check round each connection of the pool carries at least one command since the previous round (a user's or a ping), and a round in which users already rotated through the whole pool sends no ping.",
 ["histories","configurations"],"every pool size from 1 up, every number of pipelines created between rounds",
 "Tests use one or two pool sizes and a few scripted counters.",
 [M+"health.go",M+"memcache.go"],[("health round","memcache/health.go runSingleLoop"),("rotation","memcache/memcache.go getNextConn")],
 [("rotation counter","number of rotations so far","memcache/memcache.go Client.next"),("last seen rotation","counter at the previous round","memcache/health.go prevSequence")],["connections used"])
p("C20","Statistics replies are decoded field by field and never silently truncated",
 "For every statistics reply, each reported field holds exactly the number the server sent for the corresponding name and slab class, every slab class seen is listed exactly once, and unknown names are ignored. A malformed line or number, a read error, or a stream that ends before the end marker is reported as an error and never as a complete result.",
 ["inputs"],"every statistics reply: any set and order of names, classes and numbers, any truncation point",
 "Tests decode recorded outputs; the mapping of some forty names and all truncation points are not sampled.",
 [M+"stats/parser.go",M+"stats/stats.go"],[("line parser","memcache/stats/parser.go next"),("field mapping","memcache/stats/stats.go parseSlabStat/parseSlabItemStat/parseMetaDumpKey/MetaDumpAll")],[],["returned statistics and errors"])
p("C21","Connecting yields a guarded connection or closes what it opened",
 "A connection handed out by dialing applies the configured deadline before every read and every write, and a dial that fails after the connection was opened closes it. With password authentication a connection is handed out only if the server's answer to the credentials is exactly the stored acknowledgement; otherwise it is closed and an error returned.",
 ["inputs","fault_sequences","configurations"],"every option combination, every failure point during dialing and authentication, every server answer and segmentation of it",
 "There are no unit tests for this package, and failure points during dialing need fault injection.",
 [M+"netconn/netconn.go",M+"netconn/auth.go"],[("dial","memcache/netconn/netconn.go DialNewConn"),("deadlines","memcache/netconn/netconn.go timeoutReader.Read/timeoutWriter.Write"),("authentication","memcache/netconn/auth.go GetDialFunc/tryReadBytes")],[],["calls on the underlying connection"])
p("C22","Close always returns and leaves no background goroutine behind",
 "Closing a client stops its health checker and, once the outstanding replies have arrived or timed out, ends the sender, receiver and reconnect goroutines of every connection before it returns. Calling it more than once is harmless.",
 ["schedules","fault_sequences"],"every interleaving of Close with running pipelines, reconnects and health checks under a fair scheduler",
 "Termination of four cooperating goroutines under every schedule and fault is a liveness statement.",
 [M+"memcache.go",M+"conn.go",M+"health.go",M+"core.go",M+"sender.go"],[("shutdown","memcache/memcache.go Close, memcache/conn.go shutdown/waitCloseCompleted, memcache/core.go recvCommands, memcache/health.go shutdown")],[],["Close returns","goroutine count"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")
