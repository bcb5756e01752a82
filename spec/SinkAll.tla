------------------------------- MODULE SinkAll -------------------------------
(***************************************************************************)
(* The arithmetic of one stream's sink with the real limits and writes of  *)
(* any size at all, for Apalache: SinkImpl checks small sizes in every     *)
(* interleaving, this an invariant that every step keeps, whatever the     *)
(* sizes and however long the history. Only lengths are followed; as a     *)
(* stream is only ever appended to, they say where every byte is.          *)
(***************************************************************************)
EXTENDS Integers
MaxPage == 262144
MinPage == 131072
VARIABLES
  \* @type: Int;
  file,    \* bytes of the stream in the file
  \* @type: Int;
  buf,     \* bytes in the buffer
  \* @type: Int;
  rest,    \* bytes of a large write still to be stored
  \* @type: Int;
  addr,    \* the next address
  \* @type: Int;
  page,    \* the size of the page written in the last step, 0 if there was none
  \* @type: Int;
  given,   \* the address given to the last write
  \* @type: Int;
  pos,     \* and where in the stream its first byte went
  \* @type: Bool;
  records, \* only an 8 byte header and 32 byte records were written, by write_atomic
  \* @type: Str;
  pc
Init == /\ file = 0 /\ buf = 0 /\ rest = 0 /\ addr = 0 /\ page = 0 /\ given = 0 /\ pos = 0 /\ records = TRUE /\ pc = "idle"

Take(n) == given' = addr /\ pos' = file + buf /\ addr' = addr + n
\* write_atomic of at most a page
Callback(n) ==
  /\ pc = "idle" /\ n <= MaxPage /\ Take(n)
  /\ IF buf + n > MaxPage THEN page' = buf /\ file' = file + buf /\ buf' = n
     ELSE page' = 0 /\ file' = file /\ buf' = buf + n
  /\ records' = (records /\ IF addr = 0 THEN n = 8 ELSE n = 32)
  /\ UNCHANGED <<rest, pc>>
\* write_bytes_atomic, and write_atomic of more than a page
Bytes(n) ==
  /\ pc = "idle" /\ n > 128 /\ Take(n)
  /\ LET taken == IF buf >= MinPage THEN 0 ELSE IF MinPage - buf < n THEN MinPage - buf ELSE n
     IN IF taken = n THEN page' = 0 /\ buf' = buf + n /\ UNCHANGED <<file, rest, pc>>
        ELSE /\ page' = buf + taken /\ file' = file + buf + taken /\ buf' = 0
             /\ rest' = n - taken /\ pc' = "chunk"
  /\ records' = FALSE
Chunk ==
  /\ pc = "chunk"
  /\ IF rest = 0 THEN pc' = "idle" /\ page' = 0 /\ UNCHANGED <<file, buf, rest>>
     ELSE LET c == IF rest < MaxPage THEN rest ELSE MaxPage IN
          /\ rest' = rest - c /\ pc' = pc
          /\ IF c >= MinPage THEN page' = c /\ file' = file + c /\ UNCHANGED buf
             ELSE page' = 0 /\ buf' = c /\ UNCHANGED file
  /\ UNCHANGED <<addr, given, pos, records>>
Flush == /\ pc = "idle" /\ page' = buf /\ file' = file + buf /\ buf' = 0
         /\ UNCHANGED <<rest, addr, given, pos, records, pc>>
Drop == /\ pc = "idle" /\ page' = buf /\ file' = file + buf /\ buf' = 0 /\ pc' = "closed"
        /\ UNCHANGED <<rest, addr, given, pos, records>>
Next == Flush \/ Drop \/ Chunk \/ \E n \in Nat : Callback(n) \/ Bytes(n)

Types == /\ file \in Nat /\ buf \in Nat /\ rest \in Nat /\ addr \in Nat /\ page \in Nat /\ given \in Nat /\ pos \in Nat
         /\ records \in BOOLEAN /\ pc \in {"idle", "chunk", "closed"}
\* Nothing is lost, doubled or moved; pages fit; a write larger than a page starts chunking with an empty
\* buffer, which its last chunk may fill; pages of records end with a record; nothing stays behind.
Sound ==
  /\ addr = file + buf + rest
  /\ given = pos
  /\ page <= MaxPage /\ buf <= MaxPage
  /\ (pc = "chunk" /\ rest > 0) => buf = 0
  /\ pc # "chunk" => rest = 0
  /\ pc = "chunk" => ~records
  /\ records => (addr = 0 \/ addr % 32 = 8) /\ (file = 0 \/ file % 32 = 8)
  /\ pc = "closed" => file = addr
Inv == Types /\ Sound
=============================================================================
