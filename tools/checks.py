BASE="Generated search with shrinking; absence of a counterexample is not a proof. Trusts the reference codec in harness/wire (written from the OASIS text) and the model in the check. "
def c(i,tech,note):
    TECH[i]=tech; NOTE[i]=BASE+note
c("C01","property-based testing: generated CONNECT structs against an independent MQTT 5 decoder","Cases cross the 1/2/3-byte length boundaries; every case is encoded twice.")
c("C02","property-based testing: independent decoder plus round trip through the library","Payloads up to 2 MiB; round trip with and without pre-read header.")
c("C03","property-based testing: model of topic option setters, independent decoder","Setter sequences up to 7 calls, up to 4 topics.")
c("C04","property-based testing: independent decoder","All six packet types, all 256 reason codes.")
c("C05","property-based testing: generated well-formed packets from a reference encoder, field-by-field comparison","All ten inbound types, short and long forms, properties in any order.")
c("C08","property-based testing: reference encodings, arbitrary bytes into decoders","Boundary and oversized values.")
c("C09","property-based fault injection: every byte position failed","Exhaustive over positions for packets up to 300 bytes, sampled beyond.")
c("C29","stateful property-based testing against a byte-slice model","Sequences up to 10 operations.")
SEQ="stateful model-based testing: generated histories of calls, packets, faults and timings in fake time against a reference model of the client"
c("C06",SEQ.replace("stateful model-based testing","metamorphic property-based testing")+"; chunked against unchunked streams, at packet level and through a connected client","Chunk sizes 1-3000 bytes; streams up to 12 packets.")
c("C07","structured fuzzing of packet bytes against a strict and a lenient reference parser, at packet level and through a connected client","Verdicts: must accept, must reject, either (questionable but decodable); never panics, never over-reads.")
c("C10",SEQ,"Filters and topics generated from each other (up to 5 levels); reference matcher compares level by level.")
c("C11",SEQ,"Histories up to 50 steps.")
c("C12",SEQ,"Histories up to 50 steps.")
c("C13",SEQ,"Histories up to 60 steps.")
c("C16",SEQ,"Histories up to 60 steps, and long ones up to 500.")
c("C18","property-based testing: generated CONNECT, answer, arrival times and faults; an independent verdict on the answer","One connect per case, and histories with up to several connections of one client; fake time.")
c("C19",SEQ,"Keep-alive intervals 0-65535 s, fake time.")
c("C20",SEQ,"Histories up to 25 steps; also clients that never were connected.")
c("C22",SEQ,"Random source constant, zero, cyclic; up to 65535 identifiers held by the storage.")
c("C23",SEQ,"Recording storage and the library's own memory storage compared with the model after every step.")
c("C27",SEQ.replace("stateful model-based testing","metamorphic property-based testing")+"; slow against immediate arrival","Arrival times in fake time, up to 16 steps.")
c("C30","property-based testing against the specification's reason-code table, also through Connect and Subscribe","All 256 codes.")
SCHED="systematic schedule exploration by generated plans (random walks and priority plans with change points) of the instrumented library in fake time: up to 5-7 goroutines, a yield before every statement, locks and time under the control of the case; "
c("C14",SEQ+"; concurrently: "+SCHED+"an independent server counts the messages in flight","Sequential histories up to 60 steps; concurrent cases up to 5 goroutines with 4 calls. A second engine lets the client lose its connection and connect again while calls of the old connection are still returning (up to 3 connections).")
c("C15",SEQ+"; concurrently: "+SCHED+"a publish must not wait while the server's quota is not exhausted (10 s of fake time)","Sequential and concurrent, server answers up to 30 s late. A second engine lets the client lose its connection and connect again while calls of the old connection are still returning (up to 3 connections).")
c("C17",SEQ+"; concurrently: "+SCHED+"every delivery must be explained by the bindings in force","Events of messages received while bindings change may or may not be delivered.")
c("C21",SEQ+"; concurrently: "+SCHED+"each call gets its own acknowledgement","Acknowledgements delayed, refused and out of order. A second engine lets the client lose its connection and connect again while calls of the old connection are still returning (up to 3 connections).")
c("C24","stateful property-based testing against a map, and generated concurrent use decided by a linearizability checker","Up to 4 goroutines; storage instrumented with yields.")
c("C25",SCHED+"a call still waiting after 150 s of fake time without a legitimate reason, a deadlock or a panic is a violation","Faults of the connection and of the storage, refusals, disconnects, cancelled contexts. A second engine lets the client lose its connection and connect again while calls of the old connection are still returning (up to 3 connections).")
c("C28",SCHED+"events of closed and open channels","Up to 4 goroutines subscribing, closing and reading while messages arrive.")
c("C31",SCHED+"an independent decoder reads what the server receives","Up to 5 writers, faults at any write, partial writes.")
c("C26","property-based concurrency testing: generated call mixes, faults and random delays before the library's statements, judged by the Go race detector (happens-before)","6 clients per case, up to 5 goroutines each; the simulated connection adds no synchronisation beyond cause and effect; real time, so a replay is repeated 20 times.")
