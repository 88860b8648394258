-------------------------------- MODULE Wal --------------------------------
(* A segment of the write-ahead log: what its file holds, byte by byte.                                                *)
(*                                                                                                                     *)
(*   header      57 41 4C 00 00 00 00 00                                                                                *)
(*   frames      sequence number (8) | type (1) | length of the data (2) | data | CRC-32 (IEEE) of the data (4)         *)
(*   checksum    CRC-64 (ECMA-182, reflected, as xz uses it) of everything between header and checksum (8), at close    *)
(* All numbers are big-endian.  A byte is a number 0..255; sequence numbers are sequences of eight bytes.               *)
(*                                                                                                                     *)
(* A segment owes its file all frames when its policy says so: after each entry (immediate), when the number of frames   *)
(* it has kept reaches the limit (count), when their bytes do (size), at a flush and at close.  It may write frames      *)
(* earlier than it has to, but only whole ones, in order.  A file that refuses makes the call an error; what it did not   *)
(* take is owed to the next flush.                                                                                      *)
EXTENDS Naturals, Sequences, SequencesExt, Bitwise, TLC

Header == <<87, 65, 76, 0, 0, 0, 0, 0>>

-----------------------------------------------------------------------------
(* Reflected cyclic redundancy checks, the least significant byte first *)
\* one bit: shift right over all bytes, and subtract the polynomial if a one fell out
ShiftRight(c) == TLCEval([k \in 1..Len(c) |-> (c[k] \div 2) + (IF k < Len(c) /\ c[k + 1] % 2 = 1 THEN 128 ELSE 0)])
XorBytes(a, b) == TLCEval([k \in 1..Len(a) |-> a[k] ^^ b[k]])
BitStep(poly, c) == IF c[1] % 2 = 1 THEN XorBytes(ShiftRight(c), poly) ELSE ShiftRight(c)
RECURSIVE Bits(_, _, _)
Bits(poly, c, n) == IF n = 0 THEN c ELSE Bits(poly, BitStep(poly, c), n - 1)
Table(poly) == TLCEval([b \in 0..255 |-> Bits(poly, [k \in 1..Len(poly) |-> IF k = 1 THEN b ELSE 0], 8)])

Poly32 == <<32, 131, 184, 237>>                         \* EDB88320
Poly64 == <<66, 15, 135, 215, 149, 87, 108, 201>>       \* C96C5795D7870F42
Table32 == Table(Poly32)
Table64 == Table(Poly64)

Crc4(t, c, b) == LET x == t[c[1] ^^ b] IN <<x[1] ^^ c[2], x[2] ^^ c[3], x[3] ^^ c[4], x[4]>>
Crc8(t, c, b) == LET x == t[c[1] ^^ b]
                 IN <<x[1] ^^ c[2], x[2] ^^ c[3], x[3] ^^ c[4], x[4] ^^ c[5], x[5] ^^ c[6], x[6] ^^ c[7], x[7] ^^ c[8], x[8]>>
Ones(n) == [k \in 1..n |-> 255]
Final(c) == Reverse([k \in 1..Len(c) |-> 255 - c[k]])
\* states of the checks that a byte, or many, were fed to
Feed32(c, bytes) == FoldLeft(LAMBDA acc, b : Crc4(Table32, acc, b), c, bytes)
Feed64(c, bytes) == FoldLeft(LAMBDA acc, b : Crc8(Table64, acc, b), c, bytes)
CRC32(bytes) == Final(Feed32(Ones(4), bytes))
CRC64(bytes) == Final(Feed64(Ones(8), bytes))
\* the check values of the two, from their catalogue ("123456789"), and the empty one
ASSUME CRC32(<<49, 50, 51, 52, 53, 54, 55, 56, 57>>) = <<203, 244, 57, 38>>
ASSUME CRC64(<<49, 50, 51, 52, 53, 54, 55, 56, 57>>) = <<153, 93, 201, 187, 223, 25, 57, 250>>
ASSUME CRC64(<<>>) = <<0, 0, 0, 0, 0, 0, 0, 0>>

-----------------------------------------------------------------------------
\* an entry: its number, type and data
Frame(e) == e.seq \o <<e.type>> \o <<Len(e.data) \div 256, Len(e.data) % 256>> \o e.data \o CRC32(e.data)
Size(e) == 15 + Len(e.data)
Frames(es) == FlattenSeq([k \in 1..Len(es) |-> Frame(es[k])])
Sizes(es) == FoldLeft(LAMBDA a, e : a + Size(e), 0, es)

\* whether frames may not be kept any longer
Due(policy, limit, kept) ==
    CASE policy = "immediate" -> kept # <<>>
      [] policy = "count"     -> kept # <<>> /\ Len(kept) >= limit
      [] policy = "size"      -> kept # <<>> /\ Sizes(kept) >= limit
=============================================================================
