--------------------------------- MODULE Wire ---------------------------------
(* The encodings: every message, certificate, status and WAL record is an RLP item of the layout given by Shape (field
   order, tags, optional parts as lists of at most one item), integers are minimal big-endian byte strings, and the
   serde forms carry byte strings in lower case hexadecimal.

   A sample (harness/src/codec.rs) is a value of the real code given by its fields together with what the real code
   encodes it to, or an item tree together with whether the real code decodes it and what it encodes the result to.  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions, TLC, Json, IOUtils

Samples == ndJsonDeserialize(IOEnv.SAMPLES)

----------------------------------------------------------------------------
(* RLP: items are [s |-> bytes] or [l |-> items] *)
RECURSIVE Strip(_)
Strip(b) == IF b # <<>> /\ b[1] = 0 THEN Strip(Tail(b)) ELSE b
RECURSIVE BE(_)
BE(n) == IF n = 0 THEN <<>> ELSE Append(BE(n \div 256), n % 256)
Hdr(base, len) == IF len < 56 THEN <<base + len>> ELSE <<base + 55 + Len(BE(len))>> \o BE(len)
EncS(b) == IF Len(b) = 1 /\ b[1] < 128 THEN b ELSE Hdr(128, Len(b)) \o b
RECURSIVE Enc(_)
Enc(x) == IF "s" \in DOMAIN x THEN EncS(x.s)
          ELSE LET body == FlattenSeq([k \in DOMAIN x.l |-> Enc(x.l[k])]) IN Hdr(192, Len(body)) \o body

S(b) == [s |-> b]
L(items) == [l |-> items]
I(b) == [s |-> Strip(b)]
T(n) == [s |-> BE(n)]

----------------------------------------------------------------------------
(* layout of each type: a list of field kinds *)
Shape ==
    [ Vote |-> <<"u64", "u64", "VoteType", "bytes">>,
      SignedVote |-> <<"bytes", "Vote", "bytes">>,
      AggregatedSignature |-> <<"bytes", "bytes">>,
      AggregatedVote |-> <<"AggregatedSignature", "VoteType", "u64", "u64", "bytes", "bytes">>,
      PoLC |-> <<"u64", "AggregatedVote">>,
      Proposal |-> <<"u64", "u64", "bytes", "optPoLC", "bytes", "content">>,
      SignedProposal |-> <<"bytes", "Proposal">>,
      Proof |-> <<"u64", "u64", "bytes", "AggregatedSignature">>,
      Commit |-> <<"u64", "Proof", "content">>,
      DurationConfig |-> <<"u64", "u64", "u64", "u64">>,
      Node |-> <<"bytes", "u32", "u32">>,
      Status |-> <<"u64", "u64", "DurationConfig", "listNode">>,
      AggregatedChoke |-> <<"u64", "u64", "bytes", "listbytes">>,
      Choke |-> <<"u64", "u64", "UpdateFrom">>,
      SignedChoke |-> <<"bytes", "Choke", "bytes">>,
      WalLock |-> <<"u64", "AggregatedVote", "content">>,
      WalInfo |-> <<"u64", "u64", "Step", "optWalLock", "UpdateFrom">> ]
\* field names in the order of the layout (a Status says 0 for no interval and all zero ratios for none)
Fields ==
    [ Vote |-> <<"height", "round", "vote_type", "block_hash">>,
      SignedVote |-> <<"signature", "vote", "voter">>,
      AggregatedSignature |-> <<"signature", "address_bitmap">>,
      AggregatedVote |-> <<"signature", "vote_type", "height", "round", "block_hash", "leader">>,
      PoLC |-> <<"lock_round", "lock_votes">>,
      Proposal |-> <<"height", "round", "block_hash", "lock", "proposer", "content">>,
      SignedProposal |-> <<"signature", "proposal">>,
      Proof |-> <<"height", "round", "block_hash", "signature">>,
      Commit |-> <<"height", "proof", "content">>,
      DurationConfig |-> <<1, 2, 3, 4>>,
      Node |-> <<"address", "propose_weight", "vote_weight">>,
      Status |-> <<"height", "interval", "timer_config", "authority_list">>,
      AggregatedChoke |-> <<"height", "round", "signature", "voters">>,
      Choke |-> <<"height", "round", "from">>,
      SignedChoke |-> <<"signature", "choke", "address">>,
      WalLock |-> <<"lock_round", "lock_votes", "content">>,
      WalInfo |-> <<"height", "round", "step", "lock", "from">> ]
Z8 == <<0, 0, 0, 0, 0, 0, 0, 0>>

\* the item that stands for value v of kind k
RECURSIVE Item(_, _)
Item(k, v) ==
    CASE k \in {"u64", "u32"} -> I(v)
      [] k \in {"bytes", "content"} -> S(v)
      [] k = "VoteType" -> T(IF v = "Prevote" THEN 1 ELSE 2)
      [] k = "Step" -> T(v)
      [] k = "optPoLC" -> L(IF v = <<>> THEN <<>> ELSE <<Item("PoLC", v[1])>>)
      [] k = "optWalLock" -> L(IF v = <<>> THEN <<>> ELSE <<Item("WalLock", v[1])>>)
      [] k = "listNode" -> L([j \in DOMAIN v |-> Item("Node", v[j])])
      [] k = "listbytes" -> L([j \in DOMAIN v |-> S(v[j])])
      [] k = "UpdateFrom" -> IF v.kind = "PrevoteQC" THEN L(<<T(0), Item("AggregatedVote", v.qc)>>)
                             ELSE IF v.kind = "PrecommitQC" THEN L(<<T(1), Item("AggregatedVote", v.qc)>>)
                             ELSE L(<<T(2), Item("AggregatedChoke", v.qc)>>)
      [] k = "Status" -> L(<<I(v.height), I(IF v.interval = <<>> THEN Z8 ELSE v.interval[1]),
                             Item("DurationConfig", IF v.timer_config = <<>> THEN <<Z8, Z8, Z8, Z8>> ELSE v.timer_config[1]),
                             Item("listNode", v.authority_list)>>)
      [] OTHER -> L([j \in DOMAIN Shape[k] |-> Item(Shape[k][j], v[Fields[k][j]])])

\* must item x be accepted ("yes"), rejected ("no"), or is it left open?
Worst(R) == IF "no" \in R THEN "no" ELSE IF "open" \in R THEN "open" ELSE "yes"
IsS(x) == "s" \in DOMAIN x
UInt(x, n) == IF IsS(x) /\ Len(x.s) <= n /\ (x.s = <<>> \/ x.s[1] # 0) THEN "yes" ELSE "no"
ValOf(x) == IF x.s = <<>> THEN 0 ELSE x.s[1]
RECURSIVE Accept(_, _)
Accept(k, x) ==
    CASE k = "u64" -> UInt(x, 8)
      [] k = "u32" -> UInt(x, 4)
      [] k = "bytes" -> IF IsS(x) THEN "yes" ELSE "no"
      [] k = "content" -> IF ~IsS(x) THEN "no" ELSE IF \A j \in DOMAIN x.s : x.s[j] < 128 THEN "yes" ELSE "open"   \* up to the application
      [] k = "VoteType" -> IF UInt(x, 1) = "yes" /\ ValOf(x) \in {1, 2} THEN "yes" ELSE "no"
      [] k = "Step" -> IF UInt(x, 1) = "yes" /\ ValOf(x) \in 0..4 THEN "yes" ELSE "no"
      [] k = "optPoLC" -> IF IsS(x) \/ Len(x.l) > 1 THEN "no" ELSE IF x.l = <<>> THEN "yes" ELSE Accept("PoLC", x.l[1])
      [] k = "optWalLock" -> IF IsS(x) \/ Len(x.l) > 1 THEN "no" ELSE IF x.l = <<>> THEN "yes" ELSE Accept("WalLock", x.l[1])
      [] k = "listNode" -> IF IsS(x) THEN "open" ELSE Worst({Accept("Node", x.l[j]) : j \in DOMAIN x.l})
      [] k = "listbytes" -> IF IsS(x) THEN "open" ELSE Worst({Accept("bytes", x.l[j]) : j \in DOMAIN x.l})
      [] k = "UpdateFrom" -> IF IsS(x) \/ Len(x.l) # 2 \/ UInt(x.l[1], 1) = "no" \/ ValOf(x.l[1]) > 2 THEN "no"
                             ELSE Accept(IF ValOf(x.l[1]) = 2 THEN "AggregatedChoke" ELSE "AggregatedVote", x.l[2])
      [] OTHER -> IF IsS(x) \/ Len(x.l) # Len(Shape[k]) THEN "no"
                  ELSE Worst({Accept(Shape[k][j], x.l[j]) : j \in DOMAIN Shape[k]})

----------------------------------------------------------------------------
(* JSON (serde) forms.  Numbers are given as their 8 bytes. *)
HexDigit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
RECURSIVE Hex(_)
Hex(b) == IF b = <<>> THEN "" ELSE HexDigit[(b[1] \div 16) + 1] \o HexDigit[(b[1] % 16) + 1] \o Hex(Tail(b))
Pad8(b) == [j \in 1..8 |-> IF j + Len(b) <= 8 THEN 0 ELSE b[j + Len(b) - 8]]
RECURSIVE JForm(_, _)
JForm(k, v) ==
    CASE k = "AggregatedSignature" -> [signature |-> Hex(v.signature), address_bitmap |-> Hex(v.address_bitmap)]
      [] k = "AggregatedVote" -> [signature |-> JForm("AggregatedSignature", v.signature), vote_type |-> v.vote_type,
                                  height |-> v.height, round |-> v.round, block_hash |-> Hex(v.block_hash), leader |-> Hex(v.leader)]
      [] k = "AggregatedChoke" -> [height |-> v.height, round |-> v.round, signature |-> Hex(v.signature),
                                   voters |-> [inner |-> [j \in DOMAIN v.voters |-> [inner |-> Hex(v.voters[j])]]]]
      [] k = "UpdateFrom" -> (v.kind :> JForm(IF v.kind = "ChokeQC" THEN "AggregatedChoke" ELSE "AggregatedVote", v.qc))
      [] k = "Node" -> [address |-> Hex(v.address), propose_weight |-> Pad8(v.propose_weight), vote_weight |-> Pad8(v.vote_weight)]
      [] k = "DurationConfig" -> [propose_ratio |-> v[1], prevote_ratio |-> v[2], precommit_ratio |-> v[3], brake_ratio |-> v[4]]

----------------------------------------------------------------------------
Bad(x) ==
    CASE x.k = "enc" ->
           IF x.rt = 2 THEN <<"a record of the documented layout is not decoded", x.b>>
           ELSE LET want == Enc(Item(x.ty, x.v))
                IN  IF x.b # want THEN <<"encoding", want, x.b>>
                    ELSE IF x.rt # 1 THEN <<"does not survive encoding and decoding">>
                    ELSE IF x.js = <<>> THEN <<>>
                    ELSE IF x.js[1] # JForm(x.ty, x.v) THEN <<"serde form", JForm(x.ty, x.v), x.js[1]>>
                    ELSE IF x.jrt # 1 THEN <<"does not survive serde">>
                    ELSE <<>>
      [] x.k = "dec" ->
           LET a == Accept(x.ty, x.t)
           IN  IF x.res = "panic" THEN <<"decoding panics">>
               ELSE IF a = "yes" /\ x.res = "err" THEN <<"a well-formed item is rejected">>
               ELSE IF a = "no" /\ x.res = "ok" THEN <<"a malformed item is accepted">>
               ELSE IF a = "yes" /\ x.b # Enc(x.t) THEN <<"decoded to a different value", Enc(x.t), x.b>>
               ELSE <<>>
      [] x.k = "noise" -> <<"decoding of arbitrary bytes", x.res>>
      [] OTHER -> <<>>

VARIABLE i
Init == i \in DOMAIN Samples
Next == FALSE /\ UNCHANGED i
Spec == Init /\ [][Next]_i
Check == LET b == Bad(Samples[i]) IN IF b = <<>> THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> i, ty |-> IF "ty" \in DOMAIN Samples[i] THEN Samples[i].ty ELSE "", why |-> b]))
Report == TLCGet("distinct") = Cardinality(DOMAIN Samples) /\ PrintT("@@" \o ToJson([traces |-> Len(Samples)]))
=============================================================================
