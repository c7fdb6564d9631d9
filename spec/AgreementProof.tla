--------------------------- MODULE AgreementProof ---------------------------
(* Agreement holds for any number of validators, rounds and blocks (checked by tlapm). *)
EXTENDS Agreement, TLAPS

LEMMA CertMono ==
  ASSUME NEW V, NEW U, V \subseteq U, NEW r, NEW b, Cert(V, r, b)
  PROVE Cert(U, r, b)
BY DEF Cert

LEMMA CertGrows ==
  ASSUME NEW V, NEW i, NEW r, NEW b, NEW k, NEW c, Cert(V \cup {<<i, r, b>>}, k, c), ~Cert(V, k, c)
  PROVE k = r /\ c = b
<1>1. PICK Q \in Quorums : \A j \in Q \cap Good : <<j, k, c>> \in V \cup {<<i, r, b>>} BY DEF Cert
<1>2. PICK j \in Q \cap Good : <<j, k, c>> \notin V BY DEF Cert
<1>3. <<j, k, c>> = <<i, r, b>> BY <1>1, <1>2
<1> QED BY <1>3

LEMMA CertUnique ==
  ASSUME NEW V, Once(V), NEW r \in Rounds, NEW b \in Values, NEW c \in Values, Cert(V, r, b), Cert(V, r, c)
  PROVE b = c
<1>1. PICK P \in Quorums : \A i \in P \cap Good : <<i, r, b>> \in V BY DEF Cert
<1>2. PICK Q \in Quorums : \A i \in Q \cap Good : <<i, r, c>> \in V BY DEF Cert
<1>3. PICK i \in P \cap Q : i \in Good BY Sane
<1> QED BY <1>1, <1>2, <1>3 DEF Once

LEMMA BlockValue == Blocks \subseteq Values /\ Nil \in Values /\ \A b \in Blocks : b # Nil
BY Sane DEF Values

LEMMA OneSide ==
  ASSUME Inv, NEW r \in Rounds, NEW k \in Rounds, r <= k, NEW b \in Blocks, NEW c \in Blocks, Decided(r, b), Decided(k, c), b # c
  PROVE FALSE
<1> USE Sane, BlockValue
<1>1. PICK P \in Quorums : \A i \in P \cap Good : <<i, r, b>> \in pc BY DEF Decided, Cert
<1>2. PICK Q \in Quorums : \A i \in Q \cap Good : <<i, k, c>> \in pc BY DEF Decided, Cert
<1>3. PICK j \in P \cap Q : j \in Good OBVIOUS
<1>4. <<j, r, b>> \in pc /\ <<j, k, c>> \in pc BY <1>1, <1>2, <1>3
<1>5. r # k BY <1>3, <1>4 DEF Inv, Once
<1>6. r < k /\ r \in Nat /\ k \in Nat BY <1>5
<1>7. \/ Polc(k, c)
      \/ \E s \in Rounds : s = k - 1 /\ Polc(s, c)
  BY <1>3, <1>4 DEF Inv, PcBacked
<1>8. Against(r, b)
  <2>1. CASE Polc(k, c) BY <2>1, <1>6 DEF Against
  <2>2. CASE \E s \in Rounds : s = k - 1 /\ Polc(s, c)
    <3>1. PICK s \in Rounds : s = k - 1 /\ Polc(s, c) BY <2>2
    <3>2. s >= r BY <3>1, <1>6
    <3> QED BY <3>1, <3>2 DEF Against
  <2> QED BY <1>7, <2>1, <2>2
<1>9. PICK i \in P \cap Good : ~May(i, r, b) BY <1>8 DEF Inv, NoRoom
<1> QED BY <1>1, <1>9 DEF May

THEOREM Sufficient == Inv => Agreement
<1> SUFFICES ASSUME Inv, NEW r \in Rounds, NEW k \in Rounds, NEW b \in Blocks, NEW c \in Blocks, Decided(r, b), Decided(k, c), b # c
             PROVE FALSE
  BY DEF Agreement
<1>1. r <= k \/ k <= r BY Sane
<1> QED BY <1>1, OneSide

LEMMA QuorumGood == \A Q \in Quorums : Q \cap Good # {}
BY Sane

THEOREM Initial == Init => Inv
<1> SUFFICES ASSUME Init PROVE Inv OBVIOUS
<1> USE Sane, BlockValue DEF Init
<1>1. Types BY DEF Types, Values
<1>2. Once(pv) /\ Once(pc) BY DEF Once
<1>3. Placed BY DEF Placed
<1>4. PcBacked BY DEF PcBacked
<1>5. LockKept BY DEF LockKept
<1>6. ReleasedBy BY DEF ReleasedBy
<1>7. \A k, c : ~Polc(k, c) BY QuorumGood DEF Polc, Cert
<1>8. NoRoom BY <1>7 DEF NoRoom, Against
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>8 DEF Inv

\* what Released is for
LEMMA ReleasedMeans ==
  ASSUME Inv, NEW i \in Good, NEW r \in Rounds, NEW b \in Values, pos[i] < 2 * r + 1, Released(i, b),
         NEW s \in Rounds, NEW d \in Blocks, <<i, s, d>> \in pc, r > s, b # d
  PROVE Against(s, d)
<1> USE Sane, BlockValue, AllRules
<1>1. lk[i].b # Nil BY DEF Inv, LockKept
<1>0. lk[i] \in [b : Values, r : Int] BY DEF Inv, Types
<1>2. PICK t \in Rounds : /\ t \in {lk[i].r, lk[i].r + 1} /\ <<i, t, lk[i].b>> \in pc
                          /\ \A k \in Rounds, c \in Blocks : <<i, k, c>> \in pc => k <= t
  BY <1>1 DEF Inv, LockKept
<1>3. s <= t BY <1>2
<1>4. lk[i].b \in Blocks BY <1>0, <1>1 DEF Values
<1>5. CASE lk[i].b # d
  <2>1. s # t BY <1>5, <1>2, <1>4 DEF Inv, Once
  <2>2. t > s BY <2>1, <1>3
  <2> QED BY <2>2, <1>2, <1>4, <1>5, <1>1 DEF Inv, ReleasedBy
<1>6. CASE lk[i].b = d
  <2>1. PICK q \in Rounds, c \in Values : q > lk[i].r /\ c # lk[i].b /\ Polc(q, c) BY <1>6, <1>1 DEF Released
  <2>2. q >= s BY <2>1, <1>2, <1>3, <1>0
  <2> QED BY <2>1, <2>2, <1>6 DEF Against
<1> QED BY <1>5, <1>6

LEMMA PrevoteInv ==
  ASSUME Inv, NEW i \in Good, NEW r \in Rounds, NEW b \in Values, Prevote(i, r, b)
  PROVE Inv'
<1> USE Sane, BlockValue, AllRules
<1>a. pv' = pv \cup {<<i, r, b>>} /\ pc' = pc /\ lk' = lk /\ pos' = [pos EXCEPT ![i] = 2 * r] /\ pos[i] < 2 * r /\ Released(i, b)
  BY DEF Prevote, After
<1>t. pos \in [Good -> Int] /\ r \in Nat BY DEF Inv, Types
<1>p. \A j \in Good : pos'[j] \in Int /\ pos'[j] >= pos[j] BY <1>a, <1>t
<1>g. \A k, c : Polc(k, c) => Polc(k, c)' BY <1>a, CertMono DEF Polc
<1>ag. \A s, d : Against(s, d) => Against(s, d)' BY <1>g DEF Against
<1>n. \A s \in Rounds, d \in Blocks : <<i, s, d>> \in pc /\ r > s /\ b # d => Against(s, d)
  <2>1. pos[i] < 2 * r + 1 BY <1>a, <1>t
  <2> QED BY <2>1, <1>a, ReleasedMeans
<1>1. Types' BY <1>a, <1>t DEF Inv, Types, Votes
<1>x. \A c \in Values : <<i, r, c>> \notin pv
  <2> SUFFICES ASSUME NEW c \in Values, <<i, r, c>> \in pv PROVE FALSE OBVIOUS
  <2>1. pos[i] >= 2 * r BY DEF Inv, Placed
  <2> QED BY <2>1, <1>a, <1>t
<1>y. \A c \in Values : <<i, r, c>> \notin pc
  <2> SUFFICES ASSUME NEW c \in Values, <<i, r, c>> \in pc PROVE FALSE OBVIOUS
  <2>1. pos[i] >= 2 * r + 1 BY DEF Inv, Placed
  <2> QED BY <2>1, <1>a, <1>t
<1>2. Once(pv)' BY <1>a, <1>x DEF Inv, Once
<1>3. Once(pc)' BY <1>a DEF Inv, Once
<1>4. Placed'
  <2> SUFFICES ASSUME NEW j \in Good, NEW s \in Rounds, NEW c \in Values
               PROVE (<<j, s, c>> \in pv' => pos'[j] >= 2 * s) /\ (<<j, s, c>> \in pc' => pos'[j] >= 2 * s + 1)
    BY DEF Placed
  <2>1. (<<j, s, c>> \in pv => pos[j] >= 2 * s) /\ (<<j, s, c>> \in pc => pos[j] >= 2 * s + 1) BY DEF Inv, Placed
  <2>2. <<j, s, c>> \in pv' => <<j, s, c>> \in pv \/ (j = i /\ s = r) BY <1>a
  <2>3. pos'[i] = 2 * r BY <1>a, <1>t
  <2> QED BY <2>1, <2>2, <2>3, <1>a, <1>p, <1>t
<1>5. PcBacked'
  <2> SUFFICES ASSUME NEW j \in Good, NEW s \in Rounds, NEW d \in Blocks, <<j, s, d>> \in pc'
               PROVE \/ Polc(s, d)'
                     \/ \E k \in Rounds : k = s - 1 /\ Polc(k, d)' /\ \A c \in Values \ {d} : <<j, s, c>> \notin pv'
    BY DEF PcBacked
  <2>1. \/ Polc(s, d)
        \/ \E k \in Rounds : k = s - 1 /\ Polc(k, d) /\ \A c \in Values \ {d} : <<j, s, c>> \notin pv
    BY <1>a DEF Inv, PcBacked
  <2>2. ~(j = i /\ s = r) BY <1>a, <1>y
  <2>3. \A c : <<j, s, c>> \in pv' => <<j, s, c>> \in pv BY <1>a, <2>2
  <2> QED BY <2>1, <2>3, <1>g
<1>6. LockKept' BY <1>a DEF Inv, LockKept
<1>7. ReleasedBy'
  <2> SUFFICES ASSUME NEW j \in Good, NEW s \in Rounds, NEW d \in Blocks, NEW k \in Rounds, NEW c \in Values,
                      <<j, s, d>> \in pc', k > s, c # d, <<j, k, c>> \in pv' \/ (c # Nil /\ <<j, k, c>> \in pc')
               PROVE Against(s, d)'
    BY DEF ReleasedBy
  <2>1. CASE <<j, k, c>> \in pv \/ (c # Nil /\ <<j, k, c>> \in pc)
    <3>1. Against(s, d) BY <2>1, <1>a DEF Inv, ReleasedBy
    <3> QED BY <3>1, <1>ag
  <2>2. CASE j = i /\ k = r /\ c = b
    <3>1. Against(s, d) BY <2>2, <1>a, <1>n
    <3> QED BY <3>1, <1>ag
  <2> QED BY <2>1, <2>2, <1>a
<1>8. NoRoom'
  <2> SUFFICES ASSUME NEW s \in Rounds, NEW d \in Blocks, Against(s, d)', NEW Q \in Quorums
               PROVE \E j \in Q \cap Good : ~May(j, s, d)'
    BY DEF NoRoom
  <2>m. \A j \in Good : May(j, s, d)' => May(j, s, d)
    <3> SUFFICES ASSUME NEW j \in Good, May(j, s, d)' PROVE May(j, s, d) OBVIOUS
    <3>1. CASE <<j, s, d>> \in pc BY <3>1 DEF May
    <3>2. CASE <<j, s, d>> \notin pc
      <4>1. pos'[j] < 2 * s + 1 /\ ~\E c \in Values \ {d} : <<j, s, c>> \in pv' /\ Polc(s, c)' BY <3>2, <1>a DEF May
      <4>2. pos[j] < 2 * s + 1 BY <4>1, <1>p, <1>t
      <4>3. ~\E c \in Values \ {d} : <<j, s, c>> \in pv /\ Polc(s, c) BY <4>1, <1>a, <1>g
      <4> QED BY <4>2, <4>3 DEF May
    <3> QED BY <3>1, <3>2
  <2>1. CASE Against(s, d)
    <3>1. PICK j \in Q \cap Good : ~May(j, s, d) BY <2>1 DEF Inv, NoRoom
    <3> QED BY <3>1, <2>m
  <2>2. CASE ~Against(s, d)
    <3>1. PICK k \in Rounds, c \in Values : k >= s /\ c # d /\ Polc(k, c)' BY DEF Against
    <3>2. ~Polc(k, c) BY <2>2, <3>1 DEF Against
    <3>3. k = r /\ c = b BY <3>1, <3>2, <1>a, CertGrows DEF Polc
    <3>4. PICK P \in Quorums : \A j \in P \cap Good : <<j, r, b>> \in pv' BY <3>1, <3>3 DEF Polc, Cert
    <3>5. PICK j \in P \cap Q : j \in Good OBVIOUS
    <3>6. <<j, r, b>> \in pv' BY <3>4, <3>5
    <3>7. pos'[j] >= 2 * r BY <3>6, <3>5, <1>4 DEF Placed
    <3>8. ~May(j, s, d)'
      <4>1. CASE r > s
        <5>1. ~(pos'[j] < 2 * s + 1) BY <3>7, <4>1, <1>p, <3>5
        <5>2. <<j, s, d>> \notin pc'
          <6> SUFFICES ASSUME <<j, s, d>> \in pc' PROVE FALSE OBVIOUS
          <6>1. <<j, s, d>> \in pc BY <1>a
          <6>2. CASE <<j, r, b>> \in pv BY <6>1, <6>2, <4>1, <3>1, <3>3, <3>5, <2>2 DEF Inv, ReleasedBy
          <6>3. CASE <<j, r, b>> \notin pv
            <7>1. j = i BY <6>3, <3>6, <1>a
            <7> QED BY <7>1, <6>1, <4>1, <3>1, <3>3, <2>2, <1>n
          <6> QED BY <6>2, <6>3
        <5> QED BY <5>1, <5>2 DEF May
      <4>2. CASE r = s
        <5>1. <<j, s, b>> \in pv' /\ Polc(s, b)' /\ b # d BY <4>2, <3>6, <3>1, <3>3
        <5>2. <<j, s, d>> \notin pc'
          <6> SUFFICES ASSUME <<j, s, d>> \in pc' PROVE FALSE OBVIOUS
          <6>1. CASE Polc(s, d)' BY <6>1, <5>1, <1>2, CertUnique DEF Polc
          <6>2. CASE \A c2 \in Values \ {d} : <<j, s, c2>> \notin pv' BY <6>2, <5>1
          <6> QED BY <6>1, <6>2, <1>5, <3>5 DEF PcBacked
        <5> QED BY <5>1, <5>2 DEF May
      <4> QED BY <4>1, <4>2, <3>1, <3>3
    <3> QED BY <3>5, <3>8
  <2> QED BY <2>1, <2>2
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7, <1>8 DEF Inv

\* what both kinds of precommit do
LEMMA PrecommitCommon ==
  ASSUME Inv, NEW i \in Good, NEW r \in Rounds, NEW b \in Values, pos[i] < 2 * r + 1, pv' = pv,
         pc' = pc \cup {<<i, r, b>>}, pos' = [pos EXCEPT ![i] = 2 * r + 1]
  PROVE /\ Once(pv)' /\ Once(pc)' /\ Placed'
        /\ \A j \in Good : pos'[j] \in Int /\ pos'[j] >= pos[j]
        /\ \A k, c : Polc(k, c)' = Polc(k, c)
        /\ \A s, d : Against(s, d)' = Against(s, d)
        /\ \A s \in Rounds, c \in Values : (<<i, s, c>> \in pv => s <= r) /\ (<<i, s, c>> \in pc => s < r)
<1> USE Sane, BlockValue, AllRules
<1>t. pos \in [Good -> Int] /\ r \in Nat BY DEF Inv, Types
<1>p. \A j \in Good : pos'[j] \in Int /\ pos'[j] >= pos[j] BY <1>t
<1>s. \A s \in Rounds, c \in Values : (<<i, s, c>> \in pv => s <= r) /\ (<<i, s, c>> \in pc => s < r)
  <2> SUFFICES ASSUME NEW s \in Rounds, NEW c \in Values PROVE (<<i, s, c>> \in pv => s <= r) /\ (<<i, s, c>> \in pc => s < r) OBVIOUS
  <2>1. (<<i, s, c>> \in pv => pos[i] >= 2 * s) /\ (<<i, s, c>> \in pc => pos[i] >= 2 * s + 1) BY DEF Inv, Placed
  <2> QED BY <2>1, <1>t
<1>1. Once(pv)' BY DEF Inv, Once
<1>2. Once(pc)'
  <2>1. \A c \in Values : <<i, r, c>> \notin pc BY <1>s, <1>t
  <2> QED BY <2>1 DEF Inv, Once
<1>3. Placed'
  <2> SUFFICES ASSUME NEW j \in Good, NEW s \in Rounds, NEW c \in Values
               PROVE (<<j, s, c>> \in pv' => pos'[j] >= 2 * s) /\ (<<j, s, c>> \in pc' => pos'[j] >= 2 * s + 1)
    BY DEF Placed
  <2>1. (<<j, s, c>> \in pv => pos[j] >= 2 * s) /\ (<<j, s, c>> \in pc => pos[j] >= 2 * s + 1) BY DEF Inv, Placed
  <2>2. <<j, s, c>> \in pc' => <<j, s, c>> \in pc \/ (j = i /\ s = r) OBVIOUS
  <2>3. pos'[i] = 2 * r + 1 BY <1>t
  <2> QED BY <2>1, <2>2, <2>3, <1>p, <1>t
<1>4. \A k, c : Polc(k, c)' = Polc(k, c) BY DEF Polc, Cert
<1>5. \A s, d : Against(s, d)' = Against(s, d) BY <1>4 DEF Against
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>p, <1>s

LEMMA NilInv ==
  ASSUME Inv, NEW i \in Good, NEW r \in Rounds, PrecommitNil(i, r)
  PROVE Inv'
<1> USE Sane, BlockValue, AllRules
<1>a. pc' = pc \cup {<<i, r, Nil>>} /\ pv' = pv /\ lk' = lk /\ pos' = [pos EXCEPT ![i] = 2 * r + 1] /\ pos[i] < 2 * r + 1
  BY DEF PrecommitNil, After
<1>c. /\ Once(pv)' /\ Once(pc)' /\ Placed'
      /\ \A j \in Good : pos'[j] \in Int /\ pos'[j] >= pos[j]
      /\ \A k, c : Polc(k, c)' = Polc(k, c)
      /\ \A s, d : Against(s, d)' = Against(s, d)
  BY <1>a, PrecommitCommon
<1>d. \A j, s : \A d \in Blocks : <<j, s, d>> \in pc' <=> <<j, s, d>> \in pc BY <1>a
<1>1. Types' BY <1>a DEF Inv, Types, Votes
<1>2. PcBacked' BY <1>a, <1>c, <1>d DEF Inv, PcBacked
<1>3. LockKept'
  <2> SUFFICES ASSUME NEW j \in Good
               PROVE IF lk[j].b = Nil THEN \A s \in Rounds, d \in Blocks : <<j, s, d>> \notin pc'
                     ELSE \E s \in Rounds : /\ s \in {lk[j].r, lk[j].r + 1} /\ <<j, s, lk[j].b>> \in pc'
                                            /\ \A k \in Rounds, d \in Blocks : <<j, k, d>> \in pc' => k <= s
    BY <1>a DEF LockKept
  <2> QED BY <1>a, <1>d DEF Inv, LockKept
<1>4. ReleasedBy'
  <2> SUFFICES ASSUME NEW j \in Good, NEW s \in Rounds, NEW d \in Blocks, NEW k \in Rounds, NEW c \in Values,
                      <<j, s, d>> \in pc', k > s, c # d, <<j, k, c>> \in pv' \/ (c # Nil /\ <<j, k, c>> \in pc')
               PROVE Against(s, d)'
    BY DEF ReleasedBy
  <2>1. <<j, s, d>> \in pc BY <1>d
  <2>2. <<j, k, c>> \in pv \/ (c # Nil /\ <<j, k, c>> \in pc) BY <1>a
  <2>3. Against(s, d) BY <2>1, <2>2 DEF Inv, ReleasedBy
  <2> QED BY <2>3, <1>c
<1>5. NoRoom'
  <2> SUFFICES ASSUME NEW s \in Rounds, NEW d \in Blocks, Against(s, d)', NEW Q \in Quorums
               PROVE \E j \in Q \cap Good : ~May(j, s, d)'
    BY DEF NoRoom
  <2>1. PICK j \in Q \cap Good : ~May(j, s, d) BY <1>c DEF Inv, NoRoom
  <2>2. ~May(j, s, d)'
    <3> SUFFICES ASSUME May(j, s, d)' PROVE FALSE OBVIOUS
    <3>1. <<j, s, d>> \notin pc' BY <2>1, <1>d DEF May
    <3>2. pos'[j] < 2 * s + 1 /\ ~\E c \in Values \ {d} : <<j, s, c>> \in pv' /\ Polc(s, c)' BY <3>1 DEF May
    <3>3. pos[j] < 2 * s + 1 BY <3>2, <1>c DEF Inv, Types
    <3>4. ~\E c \in Values \ {d} : <<j, s, c>> \in pv /\ Polc(s, c) BY <3>2, <1>a, <1>c
    <3> QED BY <3>3, <3>4, <2>1 DEF May
  <2> QED BY <2>2
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>c DEF Inv

LEMMA PrecommitInv ==
  ASSUME Inv, NEW i \in Good, NEW r \in Rounds, NEW b \in Blocks, NEW k \in Rounds, Precommit(i, r, b, k)
  PROVE Inv'
<1> USE Sane, BlockValue, AllRules
<1>a. /\ pc' = pc \cup {<<i, r, b>>} /\ pv' = pv /\ pos' = [pos EXCEPT ![i] = 2 * r + 1] /\ pos[i] < 2 * r + 1
      /\ lk' = [lk EXCEPT ![i] = [b |-> b, r |-> k]] /\ Released(i, b)
  BY DEF Precommit, After
<1>b. Polc(k, b) /\ (k = r \/ (k = r - 1 /\ \A c \in Values \ {b} : <<i, r, c>> \notin pv)) BY DEF Precommit, Backed
<1>c. /\ Once(pv)' /\ Once(pc)' /\ Placed'
      /\ \A j \in Good : pos'[j] \in Int /\ pos'[j] >= pos[j]
      /\ \A q, c : Polc(q, c)' = Polc(q, c)
      /\ \A s, d : Against(s, d)' = Against(s, d)
      /\ \A s \in Rounds, c \in Values : (<<i, s, c>> \in pv => s <= r) /\ (<<i, s, c>> \in pc => s < r)
  BY <1>a, PrecommitCommon
<1>t. lk \in [Good -> [b : Values, r : Int]] /\ pos \in [Good -> Int] /\ r \in Nat /\ k \in Nat BY DEF Inv, Types
<1>1. Types' BY <1>a, <1>t DEF Inv, Types, Votes
<1>2. PcBacked'
  <2> SUFFICES ASSUME NEW j \in Good, NEW s \in Rounds, NEW d \in Blocks, <<j, s, d>> \in pc'
               PROVE \/ Polc(s, d)
                     \/ \E q \in Rounds : q = s - 1 /\ Polc(q, d) /\ \A c \in Values \ {d} : <<j, s, c>> \notin pv
    BY <1>a, <1>c DEF PcBacked
  <2>1. CASE <<j, s, d>> \in pc BY <2>1 DEF Inv, PcBacked
  <2>2. CASE j = i /\ s = r /\ d = b BY <2>2, <1>b
  <2> QED BY <2>1, <2>2, <1>a
<1>3. LockKept'
  <2> SUFFICES ASSUME NEW j \in Good
               PROVE IF lk'[j].b = Nil THEN \A s \in Rounds, d \in Blocks : <<j, s, d>> \notin pc'
                     ELSE \E s \in Rounds : /\ s \in {lk'[j].r, lk'[j].r + 1} /\ <<j, s, lk'[j].b>> \in pc'
                                            /\ \A q \in Rounds, d \in Blocks : <<j, q, d>> \in pc' => q <= s
    BY DEF LockKept
  <2>1. CASE j = i
    <3>1. lk'[j].b = b /\ lk'[j].r = k BY <2>1, <1>a, <1>t
    <3>2. r \in {k, k + 1} BY <1>b, <1>t
    <3>3. \A q \in Rounds, d \in Blocks : <<j, q, d>> \in pc' => q <= r
      <4> SUFFICES ASSUME NEW q \in Rounds, NEW d \in Blocks, <<j, q, d>> \in pc' PROVE q <= r OBVIOUS
      <4>1. <<j, q, d>> \in pc \/ q = r BY <1>a
      <4> QED BY <4>1, <2>1, <1>c
    <3> QED BY <3>1, <3>2, <3>3, <2>1, <1>a
  <2>2. CASE j # i
    <3>1. lk'[j] = lk[j] /\ \A s, d : <<j, s, d>> \in pc' <=> <<j, s, d>> \in pc BY <2>2, <1>a, <1>t
    <3> QED BY <3>1 DEF Inv, LockKept
  <2> QED BY <2>1, <2>2
<1>4. ReleasedBy'
  <2> SUFFICES ASSUME NEW j \in Good, NEW s \in Rounds, NEW d \in Blocks, NEW q \in Rounds, NEW c \in Values,
                      <<j, s, d>> \in pc', q > s, c # d, <<j, q, c>> \in pv' \/ (c # Nil /\ <<j, q, c>> \in pc')
               PROVE Against(s, d)
    BY <1>c DEF ReleasedBy
  <2>1. CASE j = i /\ s = r
    <3>1. CASE <<j, q, c>> \in pv \/ <<j, q, c>> \in pc BY <3>1, <2>1, <1>c
    <3>2. CASE q = r BY <3>2, <2>1, <1>t
    <3> QED BY <3>1, <3>2, <1>a
  <2>2. CASE <<j, s, d>> \in pc
    <3>1. CASE <<j, q, c>> \in pv \/ (c # Nil /\ <<j, q, c>> \in pc) BY <3>1, <2>2 DEF Inv, ReleasedBy
    <3>2. CASE j = i /\ q = r /\ c = b BY <3>2, <2>2, <1>a, ReleasedMeans
    <3> QED BY <3>1, <3>2, <1>a
  <2> QED BY <2>1, <2>2, <1>a
<1>5. NoRoom'
  <2> SUFFICES ASSUME NEW s \in Rounds, NEW d \in Blocks, Against(s, d)', NEW Q \in Quorums
               PROVE \E j \in Q \cap Good : ~May(j, s, d)'
    BY DEF NoRoom
  <2>1. PICK j \in Q \cap Good : ~May(j, s, d) BY <1>c DEF Inv, NoRoom
  <2>2. ~May(j, s, d)'
    <3> SUFFICES ASSUME May(j, s, d)' PROVE FALSE OBVIOUS
    <3>1. CASE <<j, s, d>> \in pc' /\ <<j, s, d>> \notin pc
      <4>1. j = i /\ s = r /\ d = b BY <3>1, <1>a
      <4>2. \A c \in Values \ {b} : ~(<<i, r, c>> \in pv /\ Polc(r, c))
        <5>1. CASE k = r BY <5>1, <1>b, CertUnique DEF Inv, Polc
        <5> QED BY <5>1, <1>b
      <4> QED BY <4>1, <4>2, <2>1, <1>a DEF May
    <3>2. CASE <<j, s, d>> \in pc BY <3>2, <2>1 DEF May
    <3>3. CASE <<j, s, d>> \notin pc'
      <4>1. pos'[j] < 2 * s + 1 /\ ~\E c \in Values \ {d} : <<j, s, c>> \in pv' /\ Polc(s, c)' BY <3>3 DEF May
      <4>2. pos[j] < 2 * s + 1 BY <4>1, <1>c, <1>t
      <4>3. ~\E c \in Values \ {d} : <<j, s, c>> \in pv /\ Polc(s, c) BY <4>1, <1>a, <1>c
      <4> QED BY <4>2, <4>3, <2>1 DEF May
    <3> QED BY <3>1, <3>2, <3>3
  <2> QED BY <2>2
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>c DEF Inv

THEOREM Inductive == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv' OBVIOUS
<1>1. CASE Next
  <2>1. PICK i \in Good, r \in Rounds : \/ PrecommitNil(i, r)
                                        \/ \E b \in Values : Prevote(i, r, b)
                                        \/ \E b \in Blocks, k \in Rounds : Precommit(i, r, b, k)
    BY <1>1 DEF Next
  <2> QED BY <2>1, NilInv, PrevoteInv, PrecommitInv
<1>2. CASE UNCHANGED vars
  <2> USE <1>2 DEF vars
  <2>1. \A r, b : Polc(r, b)' = Polc(r, b) BY DEF Polc, Cert
  <2>2. \A r, b : Against(r, b)' = Against(r, b) BY <2>1 DEF Against
  <2>3. \A i, r, b : May(i, r, b)' = May(i, r, b) BY <2>1 DEF May
  <2> QED BY <2>1, <2>2, <2>3 DEF Inv, Types, Once, Placed, PcBacked, LockKept, ReleasedBy, NoRoom
<1> QED BY <1>1, <1>2

THEOREM Safe == Spec => []Agreement
<1>1. Init => Inv BY Initial
<1>2. Inv /\ [Next]_vars => Inv' BY Inductive
<1>3. Inv => Agreement BY Sufficient
<1> QED BY <1>1, <1>2, <1>3, PTL DEF Spec
=============================================================================
