---------------------------- MODULE HuffmanTrace ----------------------------
EXTENDS TraceKit, Huffman
TraceInit == TraceKitInit
TEncode == /\ IsOp("encode")
           /\ Cur.ok = Encodable(Cur.in, Cur.kb, Cur.limit)
           /\ Cur.ok => /\ DecodesTo(Cur.file, Cur.in)
                        /\ ChunkKb(Cur.file) = Cur.kb
                        /\ Limit(Cur.file) = Cur.limit
           /\ Consume
TDecode == /\ IsOp("decode")
           /\ IF Cur.ok THEN DecodesTo(Cur.file, Cur.out) ELSE ~WellFormed(Cur.file) /\ Cur.out = Cur.before
           /\ Consume
\* the encoded file is the one of the previous event
TBack == /\ IsOp("back") /\ Events[l - 1].op = "encode"
         /\ Cur.ok = TRUE /\ Cur.same = TRUE /\ Cur.kraft <= Pow2[Events[l - 1].limit]
         /\ Consume
\* an input of runs, of which only the beginning of the file and its size are recorded
TRuns == /\ IsOp("runs")
         /\ Cur.ok = RunsEncodable(Cur.runs, Cur.kb, Cur.limit)
         /\ Cur.ok => /\ Cur.decoded = TRUE /\ Cur.same = TRUE
                      /\ FileHeaderOk(Cur.head) /\ ChunkKb(Cur.head) = Cur.kb /\ Limit(Cur.head) = Cur.limit
                      /\ (RunsLen(Cur.runs) <= Cur.kb * 1024 /\ RunsLen(Cur.runs) > 0) =>
                            OneChunk(Cur.head, Cur.size, Cur.runs)
         /\ Consume
TraceNext == TEncode \/ TDecode \/ TBack \/ TRuns \/ Accept \/ Stay
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l>>
=============================================================================
