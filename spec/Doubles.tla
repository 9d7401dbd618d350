------------------------------ MODULE Doubles ------------------------------
(* IEEE-754 binary64 numbers for TLC.                                       *)
(*                                                                          *)
(* A double is the pair <<hi, lo>> of the signed 32-bit halves of its bit   *)
(* pattern, which is also how traces write it in JSON (TLC's integers have  *)
(* 32 bits).  The operators below are evaluated by the Java class of the    *)
(* same name; the right-hand sides here are never evaluated.                *)
EXTENDS Naturals, Sequences

D(str)        == CHOOSE x \in {} : TRUE   \* decimal text -> double
NumText(str)  == CHOOSE x \in {} : TRUE   \* <<double>> if the text is a decimal number, else << >>
IntText(str)  == CHOOSE x \in {} : TRUE   \* <<integer>> if the text is an integer, else << >>
Lower(str)    == CHOOSE x \in {} : TRUE   \* in lower case
DInt(n)       == CHOOSE x \in {} : TRUE   \* integer -> double
DStr(x)       == CHOOSE x1 \in {} : TRUE  \* double -> decimal text
DAdd(x, y)    == CHOOSE z \in {} : TRUE
DSub(x, y)    == CHOOSE z \in {} : TRUE
DMul(x, y)    == CHOOSE z \in {} : TRUE
DDiv(x, y)    == CHOOSE z \in {} : TRUE
DPow(x, y)    == CHOOSE z \in {} : TRUE
DMax(x, y)    == CHOOSE z \in {} : TRUE
DMin(x, y)    == CHOOSE z \in {} : TRUE
DAbs(x)       == CHOOSE z \in {} : TRUE
DLog(x)       == CHOOSE z \in {} : TRUE
DSqrt(x)      == CHOOSE z \in {} : TRUE
DLe(x, y)     == CHOOSE z \in {} : TRUE
DLt(x, y)     == CHOOSE z \in {} : TRUE
DEq(x, y)     == CHOOSE z \in {} : TRUE
DSum(seq)     == CHOOSE z \in {} : TRUE   \* correctly rounded sum of a sequence
DRound(x, n)  == CHOOSE z \in {} : TRUE   \* round half even to n decimals
DFloor(x)     == CHOOSE z \in {} : TRUE   \* to TLC integer
(* |x - y| <= rel * max(|x|,|y|) + abs *)
DNear(x, y, rel, abs) == CHOOSE z \in {} : TRUE
(* the function {<<k, v>>} given as a sequence of pairs *)
MapOf(seq)    == CHOOSE z \in {} : TRUE
(* Sorting: the indices of seq of tuples of doubles in ascending            *)
(* lexicographic order (stable)                                             *)
DSortIdx(seq) == CHOOSE z \in {} : TRUE
=============================================================================
