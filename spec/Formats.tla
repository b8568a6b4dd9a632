------------------------------ MODULE Formats ------------------------------
(***************************************************************************)
(* The table of block formats: geometry, and the meaning of one block.     *)
(***************************************************************************)
EXTENDS Bits
BC  == INSTANCE BCn
AT  == INSTANCE ATC
ET  == INSTANCE ETC
B6  == INSTANCE BC6H
B7  == INSTANCE BC7
AS  == INSTANCE ASTC
PV  == INSTANCE PVRTC

EightByte   == {"bc1", "bc1a", "bc4", "atc_rgb4", "etc1", "etc2_rgb", "etc2_rgba1", "eacr", "eacr_signed"}
SixteenByte == {"bc2", "bc3", "bc5", "atc_rgba8", "etc2_rgba8", "eacrg", "eacrg_signed",
                 "bc6_signed", "bc6_unsigned", "bc7"}
SmallFormats == EightByte \cup SixteenByte

BlockBytes(f) == IF f \in EightByte THEN 8 ELSE 16

\* the 16 pixels of the block of format f at byte offset `at' of d
SmallBlock(f, d, at) ==
  CASE f = "bc1"  -> BC!BC1Block(d, at)
    [] f = "bc1a" -> BC!BC1aBlock(d, at)
    [] f = "bc2"  -> BC!BC2Block(d, at)
    [] f = "bc3"  -> BC!BC3Block(d, at)
    [] f = "bc4"  -> BC!BC4Block(d, at)
    [] f = "bc5"  -> BC!BC5Block(d, at)
    [] f = "atc_rgb4"   -> AT!ATCRGBBlock(d, at)
    [] f = "atc_rgba8"  -> AT!ATCRGBABlock(d, at)
    [] f = "etc1"       -> ET!ETC1Block(d, at)
    [] f = "etc2_rgb"   -> ET!ETC2Block(d, at)
    [] f = "etc2_rgba1" -> ET!ETC2A1Block(d, at)
    [] f = "etc2_rgba8" -> ET!ETC2A8Block(d, at)
    [] f = "eacr"         -> ET!R11Block(d, at, FALSE)
    [] f = "eacr_signed"  -> ET!R11Block(d, at, TRUE)
    [] f = "eacrg"        -> ET!RG11Block(d, at, FALSE)
    [] f = "eacrg_signed" -> ET!RG11Block(d, at, TRUE)
    [] f = "bc6_signed"   -> B6!BC6Block(d, at, TRUE)
    [] f = "bc6_unsigned" -> B6!BC6Block(d, at, FALSE)
    [] f = "bc7"          -> B7!BC7Block(d, at)
=============================================================================
