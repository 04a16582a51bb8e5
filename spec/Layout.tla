------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* The bytes of a column file (column_format_spec.md and pkg/col/format.go),*)
(* for G = 7.  A file is a sequence of bytes; offsets count from 0.        *)
(***************************************************************************)
EXTENDS ColFile

Magic     == << 0, 76, 79, 67, 95, 69, 66, 86 >>    \* 0x5642455F434F4C00, little-endian
Version   == LE4(1)
EntrySize == 56
MetaSize  == 24
HdrSize   == 64
Zeros(n)  == [i \in 1..n |-> 0]
LE8N(n)   == LE8(WFromInt(n))
At(bs, off, n) == SubSeq(bs, off + 1, off + n)

\* Parts that are not determined by the content are taken from the file itself: creation time,
\* checksums and sizes that are not implemented, reserved bytes.
HeaderBytes(bs, f, bmOff, bmSize) ==
  Magic \o Version \o LE4(0) \o LE8N(Len(f.blocks)) \o LE4(f.target) \o LE4(0) \o LE4(f.enc)
  \o At(bs, 36, 8) \o LE8N(bmOff) \o LE8N(bmSize) \o At(bs, 60, 4)

StatsBytes(b) == LET s == Stored(Stats(b))
                 IN  LE8(s.minid) \o LE8(s.maxid) \o LE8(s.min) \o LE8(s.max) \o LE8(s.sum) \o LE4(s.count)

BlockBytes(bs, f, b) ==
  LET ids  == EncodeIds(f.enc, b.ids)
      vals == EncodeVals(f.enc, b.vals)
  IN  StatsBytes(b) \o LE4(f.enc) \o LE4(0) \o At(bs, b.off + 52, 12)
      \o LE4(0) \o LE4(Len(ids)) \o LE4(Len(ids)) \o LE4(Len(vals)) \o ids \o vals
      \o Zeros(Pad(b.off + 80 + Len(ids) + Len(vals)))

EntryBytes(b) == LE8N(b.off) \o LE4(b.size) \o StatsBytes(b)

FooterBytes(bs, f, start) ==
  LET n == Len(f.blocks)
  IN  LE4(n) \o FoldLeft(LAMBDA a, b : a \o EntryBytes(b), <<>>, f.blocks)
      \o LE8N(4 + EntrySize * n) \o At(bs, start + 4 + EntrySize * n + 8, 8) \o Magic

\* The whole file.  The id bitmap is opaque here (its content is checked through the API and by the
\* harness); its place and size are not.
LayoutOK(bs, f) ==
  LET n     == Len(f.blocks)
      bmOff == IF n = 0 THEN HdrSize ELSE f.blocks[n].off + f.blocks[n].size
  IN  /\ Len(bs) >= bmOff + 4 + 4 + MetaSize
      /\ LET bmLen == FromLE4(At(bs, bmOff, 4))
             bmEnd == bmOff + 4 + bmLen
             fStart == bmEnd + Pad(bmEnd)
         IN  /\ bmLen >= 0
             /\ Len(bs) = fStart + 4 + EntrySize * n + MetaSize
             /\ At(bs, 0, HdrSize) = HeaderBytes(bs, f, bmOff, 4 + bmLen)
             /\ \A k \in 1..n : At(bs, f.blocks[k].off, f.blocks[k].size) = BlockBytes(bs, f, f.blocks[k])
             /\ At(bs, bmEnd, fStart - bmEnd) = Zeros(fStart - bmEnd)
             /\ At(bs, fStart, Len(bs) - fStart) = FooterBytes(bs, f, fStart)

(***************************************************************************)
(* Looking at parts of a file without assuming where the blocks are.       *)
(* WSmallInt: a word as an integer, -1 if it is 2^30 or more.              *)
(***************************************************************************)
WSmallInt(w) == IF w[1] # 0 \/ w[2] >= 512 THEN -1 ELSE w[2] * 2097152 + w[3]
FooterAt(bs) == LET m == Len(bs) - MetaSize
                    fs == WSmallInt(FromLE8(At(bs, m, 8)))
                IN  IF m < HdrSize \/ At(bs, m + 16, 8) # Magic \/ fs < 4 \/ m - fs < HdrSize THEN -1 ELSE m - fs
Entry(bs, start, k) ==
  LET e == At(bs, start + 4 + EntrySize * (k - 1), EntrySize)
  IN  [off |-> WSmallInt(FromLE8(At(e, 0, 8))), size |-> FromLE4(At(e, 8, 4)), stats |-> At(e, 12, 44)]
Entries(bs, f) == LET start == FooterAt(bs)
                      n == Len(f.blocks)
                  IN  IF start < 0 \/ Len(bs) - MetaSize - start # 4 + EntrySize * n THEN <<>>
                      ELSE [k \in 1..n |-> Entry(bs, start, k)]
\* C04: the statistics in the block index and in the block headers are those of the pairs.
StatsOK(bs, f) ==
  LET es == Entries(bs, f)
  IN  \A k \in DOMAIN es :
        LET want == StatsBytes(f.blocks[k])
        IN  /\ es[k].stats = want
            /\ es[k].off >= HdrSize /\ es[k].off + HdrSize <= Len(bs) => At(bs, es[k].off, 44) = want
\* C02: the blocks take the place that the size estimate says.
SizesOK(bs, f) ==
  LET es == Entries(bs, f)
  IN  \A k \in DOMAIN es : es[k].size = f.blocks[k].size /\ es[k].off = f.blocks[k].off

(***************************************************************************)
(* What a reader may accept: given the size of the file, its first 12      *)
(* bytes, its last 24 bytes, and the four bytes at the place where the     *)
(* footer starts according to its size (zeros if that is no place in the   *)
(* file).                                                                  *)
(***************************************************************************)
Acceptable(size, head, count, tail) ==
  /\ size >= HdrSize + MetaSize
  /\ At(head, 0, 8) = Magic /\ At(head, 8, 4) = Version
  /\ At(tail, 16, 8) = Magic
  /\ LET fs == WSmallInt(FromLE8(At(tail, 0, 8)))
         n  == FromLE4(count)
     IN  fs >= 4 /\ n >= 0 /\ n < 30000000 /\ fs = 4 + EntrySize * n /\ size - MetaSize - fs >= HdrSize

(***************************************************************************)
(* Reading a file by its documented layout: the pairs of its blocks.       *)
(***************************************************************************)
ReadBlock(bs, enc, e) ==
  LET t(k) == FromLE4(At(bs, e.off + HdrSize + 4 * k, 4))     \* section table
      data == e.off + HdrSize + 16
      n    == FromLE4(At(e.stats, 40, 4))
  IN  [ids |-> DecodeIds(enc, At(bs, data + t(0), t(1)), n), vals |-> DecodeVals(enc, At(bs, data + t(2), t(3)), n)]
ReadFile(bs) ==
  LET start == FooterAt(bs)
      enc   == FromLE4(At(bs, 32, 4))
  IN  [k \in 1..FromLE4(At(bs, start, 4)) |-> ReadBlock(bs, enc, Entry(bs, start, k))]
\* The bytes of the id bitmap section (without its size).
BitmapBytes(bs) == LET off == WSmallInt(FromLE8(At(bs, 44, 8)))
                   IN  IF off = 0 THEN <<>> ELSE At(bs, off + 4, FromLE4(At(bs, off, 4)))
SamePairs(rs, blocks) == /\ Len(rs) = Len(blocks)
                         /\ \A k \in DOMAIN rs : rs[k].ids = blocks[k].ids /\ rs[k].vals = blocks[k].vals

(***************************************************************************)
(* Making files.  WriterFile is the file that a writer leaves behind for   *)
(* the blocks f.blocks (placed by ColFile) and the given bitmap.           *)
(***************************************************************************)
WriterFile(f, bm) ==
  LET n     == Len(f.blocks)
      bmOff == IF n = 0 THEN HdrSize ELSE f.blocks[n].off + f.blocks[n].size
      bmEnd == bmOff + 4 + Len(bm)
      none  == Zeros(bmEnd + PageSize)
      body  == FoldLeft(LAMBDA a, b : a \o BlockBytes(none, f, b), <<>>, f.blocks)
  IN  HeaderBytes(none, f, bmOff, 4 + Len(bm)) \o body \o LE4(Len(bm)) \o bm \o Zeros(Pad(bmEnd))
      \o FooterBytes(Zeros(4 + EntrySize * n + MetaSize), f, 0)

(***************************************************************************)
(* MakeFile: a file as the documentation allows it, with its parts placed  *)
(* freely.  Before block b come b.skip bytes of filler; its sections stand *)
(* in either order (b.swap), with b.gap bytes of filler between them and   *)
(* b.tail after them; the id bitmap bm stands first, last or nowhere       *)
(* (f.bmAt); f.fPad bytes of filler come before the footer.                *)
(***************************************************************************)
Fill(n, x) == [i \in 1..n |-> x]
MakeBlock(enc, b) ==
  LET ids  == EncodeIds(enc, b.ids)
      vals == EncodeVals(enc, b.vals)
      table == IF b.swap
               THEN LE4(Len(vals) + b.gap) \o LE4(Len(ids)) \o LE4(0) \o LE4(Len(vals))
               ELSE LE4(0) \o LE4(Len(ids)) \o LE4(Len(ids) + b.gap) \o LE4(Len(vals))
      data == IF b.swap THEN vals \o Fill(b.gap, 170) \o ids ELSE ids \o Fill(b.gap, 170) \o vals
  IN  StatsBytes(b) \o LE4(enc) \o LE4(0) \o Zeros(12) \o table \o data \o Fill(b.tail, 119)
MakeFile(f) ==
  LET step(a, b) == LET img == MakeBlock(f.enc, b)
                        o == Len(a.bytes) + b.skip
                    IN  [bytes |-> a.bytes \o Fill(b.skip, 85) \o img,
                         idx |-> a.idx \o LE8N(o) \o LE4(Len(img)) \o StatsBytes(b)]
      bm   == IF f.bmAt = "none" THEN <<>> ELSE LE4(Len(f.bm)) \o f.bm
      pre  == IF f.bmAt = "first" THEN bm ELSE <<>>
      post == IF f.bmAt = "last" THEN bm ELSE <<>>
      r    == FoldLeft(step, [bytes |-> Zeros(HdrSize) \o pre, idx |-> <<>>], f.blocks)
      off  == IF f.bmAt = "none" THEN 0 ELSE IF f.bmAt = "first" THEN HdrSize ELSE Len(r.bytes)
      n    == Len(f.blocks)
      hdr  == Magic \o Version \o LE4(0) \o LE8N(n) \o LE4(f.target) \o LE4(0) \o LE4(f.enc)
              \o Zeros(8) \o LE8N(off) \o LE8N(Len(bm)) \o Zeros(4)
  IN  hdr \o SubSeq(r.bytes, HdrSize + 1, Len(r.bytes)) \o post \o Fill(f.fPad, 51)
      \o LE4(n) \o r.idx \o LE8N(4 + EntrySize * n) \o Zeros(8) \o Magic
=============================================================================
