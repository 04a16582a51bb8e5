------------------------------ MODULE MCLayout ------------------------------
(***************************************************************************)
(* The file layout (C11, C18) on 64-bit words and small pages: the file    *)
(* that a writer leaves and files whose parts are placed freely are read   *)
(* back; LayoutOK pins down every byte but those that are documented as    *)
(* unused; a file that is cut off anywhere is not acceptable.              *)
(***************************************************************************)
EXTENDS Layout

CONSTANTS Encs, Sizes, Gaps, Bytewise

VARIABLES enc, blocks, form
vars == <<enc, blocks, form>>

IdPool  == <<W0, <<0, 0, 127>>, <<0, 0, 128>>, <<0, 64, 5>>, <<4194303, 2097151, 2097151>>, <<2097152, 0, 0>>, <<1, 2, 3>>>>
ValPool == <<W1, WMinS, WMaxS, <<4194303, 2097151, 2097151>>, <<0, 0, 63>>, <<0, 0, 64>>, <<4194303, 2097151, 2097087>>>>
\* n pairs, from the k-th of the pools.
Pairs(n, k) == [ids |-> [i \in 1..n |-> IdPool[((i + k) % 7) + 1]], vals |-> [i \in 1..n |-> ValPool[((i + 3 * k) % 7) + 1]]]
BM == <<3, 1, 4, 1, 5>>

Init == enc \in Encs /\ blocks = <<>> /\ form = [k |-> "none"]
AddBlk == /\ form.k = "none" /\ Len(blocks) < 2
          /\ \E n \in Sizes, k \in 0..6 :
               (k % 2 = Len(blocks)) /\ blocks' = Append(blocks, Pairs(n, k))
          /\ UNCHANGED <<enc, form>>
Shape == /\ form.k = "none"
         /\ \/ form' = [k |-> "writer"]
            \/ \E sw \in BOOLEAN, g, t, s \in Gaps, bm \in {"none", "first", "last"} :
                 form' = [k |-> "made", swap |-> sw, gap |-> g, tail |-> t, skip |-> s, bmAt |-> bm]
         /\ UNCHANGED <<enc, blocks>>
Next == AddBlk \/ Shape
Spec == Init /\ [][Next]_vars

\* The blocks as ColFile places them.
Placed == LET place(a, b) == LET pos == IF a = <<>> THEN HeaderSize ELSE a[Len(a)].off + a[Len(a)].size
                             IN  Append(a, [ids |-> b.ids, vals |-> b.vals, off |-> pos, size |-> BlockSize(enc, b.ids, b.vals, pos)])
          IN  FoldLeft(place, <<>>, blocks)
F == [fin |-> TRUE, enc |-> enc, target |-> 500, blocks |-> Placed]
Image == IF form.k = "writer" THEN WriterFile(F, BM)
         ELSE MakeFile([enc |-> enc, target |-> 500, bm |-> BM, bmAt |-> form.bmAt, fPad |-> form.tail,
                        blocks |-> [k \in DOMAIN blocks |-> [ids |-> blocks[k].ids, vals |-> blocks[k].vals, swap |-> form.swap,
                                                             gap |-> form.gap, tail |-> form.tail, skip |-> form.skip]]])
Accept(bs) == LET n == Len(bs)
                  start == IF n < MetaSize THEN -1 ELSE FooterAt(bs)
              IN  n >= HdrSize + MetaSize /\ Acceptable(n, At(bs, 0, 12), IF start < 0 THEN Zeros(4) ELSE At(bs, start, 4), At(bs, n - MetaSize, MetaSize))

ReadsBack == form.k # "none" => LET bs == Image
                              IN  /\ Accept(bs) /\ SamePairs(ReadFile(bs), blocks)
                                  /\ (form.k = "made" /\ form.bmAt = "none") \/ BitmapBytes(bs) = BM
WriterLayout == form.k # "none" /\ form.k = "writer" =>
  LET bs == Image
      n  == Len(blocks)
      end == Len(bs)
      free == 36..43 \cup 60..63 \cup (end - 16)..(end - 9)
              \cup UNION { (Placed[k].off + 52)..(Placed[k].off + 63) : k \in 1..n }
              \cup (LET o == IF n = 0 THEN HdrSize ELSE Placed[n].off + Placed[n].size IN o + 4..o + 3 + Len(BM))
  IN  /\ LayoutOK(bs, F) /\ StatsOK(bs, F) /\ SizesOK(bs, F)
      /\ Bytewise => \A i \in 1..end : LayoutOK([bs EXCEPT ![i] = (@ + 1) % 256], F) <=> (i - 1) \in free
CutRefused == form.k # "none" => LET bs == Image IN \A m \in 0..Len(bs)-1 : ~Accept(SubSeq(bs, 1, m))
GrownRefused == form.k # "none" => LET bs == Image IN \A m \in 1..30 : ~Accept(bs \o Zeros(m)) /\ ~Accept(bs \o SubSeq(bs, 1, m))
=============================================================================
