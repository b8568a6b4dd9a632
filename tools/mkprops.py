#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in step by hand; run after editing)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

SAMPLE = "The tests decode one sample file per format (all with dimensions that are multiples of the block size) and never compare the pixels with anything but the success of the call"

p("P01", "Whole-image decoding tiles blocks in raster order and clips the edges",
  "For every block format and every width and height, an image decode that succeeds fills pixel (x, y), stored at index y*width+x, with texel (x mod bw, y mod bh) of the block numbered (y div bh)*ceil(width/bw)+(x div bw) in the data. Partial blocks at the right and bottom edges are clipped, each block is decoded independently of its neighbours, and every one of the first width*height entries is written.",
  ["inputs", "configurations"], "all formats, all image sizes (including 0, 1, non-multiples of the block size, wide and tall), all block contents",
  SAMPLE + "; clipping, padding and non-square block grids are never executed.",
  ["src/macros.rs", "src/color.rs", "src/astc.rs", "src/bcn/bc6.rs"],
  [("block_decoder! macro", "src/macros.rs"), ("copy_block_buffer", "src/color.rs"), ("decode_astc", "src/astc.rs")],
  ["return value and image buffer of every decode_* image function"],
  [("block cursor", "index of the next block to decode", "src/macros.rs"), ("block buffer", "texels of the current block", "src/macros.rs")])

p("P02", "Size arguments: exact error conditions, nothing touched on error or outside",
  "For all sizes (ASTC: block sides of at least 2), an image decode reports an error exactly when the data is shorter than the blocks of the image need, or the image slice is shorter than width*height, or (ASTC) the block size has more than 144 texels or (PVRTC) a block count that is not a power of two; the data check comes first, each condition has its own message, and an error leaves the image slice untouched. Exactly sufficient data and image slices always suffice, and surplus data or image space is never read into the result nor written. Empty images are accepted and write nothing.",
  ["inputs", "configurations"], "all formats, all width/height, all data and image slice lengths around the required ones",
  "The tests only pass correctly sized buffers; no error path, no boundary length and no oversized buffer is ever exercised.",
  ["src/macros.rs", "src/color.rs", "src/astc.rs", "src/pvrtc.rs"],
  [("length checks before decoding", "src/macros.rs"), ("decode_astc checks", "src/astc.rs"), ("decode_pvrtc checks", "src/pvrtc.rs"), ("copy length clipping", "src/color.rs")],
  ["return value, error text and whole image slice of every decode_* image function"])

p("P03", "Decoding is a pure function of its arguments, over any history and threads",
  "The result of a decode depends only on the function and its arguments: not on what was decoded before, on the previous contents of the image slice, on the contents of surplus data, or on decodes running at the same time in other threads. Repeating a call any number of times, in any order, mixed with any other calls, gives the same pixels and the same verdict.",
  ["histories", "schedules", "inputs"], "all sequences and interleavings of decode calls",
  "Each test makes one call in a fresh process or thread; no test repeats a call after a different one, reuses a dirty buffer, or compares concurrent results.",
  ["src/macros.rs", "src/color.rs", "src/pvrtc.rs", "src/astc.rs", "src/crunch/crn_unpacker.rs", "src/unitycrunch/crn_unpacker.rs"],
  [("no global state; per-call block buffer", "src/macros.rs"), ("per-call texture info arrays", "src/pvrtc.rs"), ("per-call unpacker", "src/crunch/crn_unpacker.rs")],
  ["return value and image buffer of repeated calls in one process, and of concurrent calls"])

p("P04", "Equivalent entry points agree: block/image, sized/generic, signed/unsigned",
  "Decoding a one-block image gives the texels the format's block decoder gives for the same bytes; every size-specific ASTC function equals the generic ASTC decode with that block size; the generic BC6H and PVRTC functions equal their signed/unsigned and 2bpp/4bpp variants. The combined formats are built from their parts: BC3 colour and alpha, BC5 from two BC4 blocks, two-channel EAC from two one-channel blocks, ETC2 RGBA8 from ETC2 RGB and the EAC alpha block.",
  ["inputs", "configurations"], "all block contents and all pairs of entry points",
  "The tests call only image functions on one file each; no test compares two entry points.",
  ["src/astc.rs", "src/bcn.rs", "src/bcn/bc3.rs", "src/bcn/bc5.rs", "src/bcn/bc6.rs", "src/etc.rs", "src/etc/eac.rs", "src/etc/etc2.rs", "src/pvrtc.rs"],
  [("decode_astc_x_y wrappers", "src/astc.rs"), ("block_decoder! instances", "src/bcn.rs"), ("composite block decoders", "src/bcn/bc3.rs, src/bcn/bc5.rs, src/etc/eac.rs, src/etc/etc2.rs")],
  ["image buffers of the paired calls"])

p("P05", "BC1, BC1A, BC2 and BC3 colours and alpha decode as the format defines",
  "For every 8- or 16-byte block, BC1/BC1A/BC2/BC3 give the S3TC palette colours: RGB565 endpoints widened by bit replication, the two 1/3 - 2/3 blends when the first endpoint is numerically larger (always, for BC2 and BC3), otherwise the half blend and black, with index bits taken lowest first. Black of the three-colour mode is opaque for BC1 and transparent for BC1A, BC2 alpha is the explicit 4-bit value times 17, BC3 alpha is the interpolated 8-bit block.",
  ["inputs"], "all block bit patterns",
  SAMPLE + "; most palette modes and all extreme endpoints are absent from the sample.",
  ["src/bcn/bc1.rs", "src/bcn/bc2.rs", "src/bcn/bc3.rs", "src/color.rs"],
  [("decode_bc1_block", "src/bcn/bc1.rs"), ("decode_bc2_block", "src/bcn/bc2.rs"), ("decode_bc3_block/alpha", "src/bcn/bc3.rs"), ("rgb565_le", "src/color.rs")],
  ["pixels of decode_bc1/bc1a/bc2/bc3 and their block functions"])

p("P06", "BC4 and BC5 single- and two-channel blocks decode as the format defines",
  "For every block, each BC4 channel value is the endpoint or the weighted (7 or 5 step) integer blend its 3-bit index selects, with 0 and 255 as the last two entries when the first endpoint is not larger than the second. BC4 puts the value in red and BC5 puts its two blocks in red and green; the image functions give the remaining channels as opaque black.",
  ["inputs"], "all block bit patterns",
  SAMPLE + ".",
  ["src/bcn/bc3.rs", "src/bcn/bc4.rs", "src/bcn/bc5.rs"],
  [("interpolated channel block", "src/bcn/bc3.rs"), ("decode_bc4_block", "src/bcn/bc4.rs"), ("decode_bc5_block", "src/bcn/bc5.rs")],
  ["pixels of decode_bc4/bc5 and their block functions"])

p("P07", "BC6H decodes every mode, signed and unsigned, as the format defines",
  "For every 16-byte block, all fourteen BC6H modes decode to the format's endpoint layout, delta transform, sign extension, unquantisation, partition, anchor and index widths and interpolation, and the half-float result is converted to 8 bits by clamping to [0,1] and scaling. Reserved modes give zero pixels; the signed and unsigned variants follow their own rules and alpha is opaque.",
  ["inputs"], "all block bit patterns, both signednesses",
  SAMPLE + "; the samples exercise only a few modes and partitions.",
  ["src/bcn/bc6.rs", "src/bcn/consts.rs", "src/bitreader.rs", "src/f16.rs"],
  [("decode_bc6_block", "src/bcn/bc6.rs"), ("unquantize/finish", "src/bcn/bc6.rs"), ("BitReader", "src/bitreader.rs"), ("f16 conversion", "src/f16.rs")],
  ["pixels of decode_bc6* image and block functions"])

p("P08", "BC7 decodes every mode, partition, rotation and p-bit as the format defines",
  "For every 16-byte block, all eight BC7 modes decode to the format's endpoint layout, p-bits, endpoint expansion, partition and anchor tables, colour and alpha index widths, index selection, channel rotation and 64-level weighted interpolation. The reserved mode gives zero pixels.",
  ["inputs"], "all block bit patterns",
  SAMPLE + "; random data almost never reaches modes 4 to 7 or the rarer partitions.",
  ["src/bcn/bc7.rs", "src/bcn/consts.rs", "src/bitreader.rs"],
  [("decode_bc7_block", "src/bcn/bc7.rs"), ("partition, anchor and weight tables", "src/bcn/consts.rs"), ("BitReader", "src/bitreader.rs")],
  ["pixels of decode_bc7 and decode_bc7_block"])

p("P09", "ATC RGB and RGBA blocks decode as the format defines",
  "For every block, ATC colours come from a RGB555 first endpoint and RGB565 second endpoint widened to 8 bits: the four-step blend when the mode bit is clear, and black, c0 - c1/4 (clamped at 0), c0, c1 when it is set. The RGB format is opaque and the RGBA format adds an interpolated alpha block in front of the colour block.",
  ["inputs"], "all block bit patterns",
  SAMPLE + "; the mode bit and clamping are not distinguished by any assertion.",
  ["src/atc.rs", "src/bcn/bc3.rs", "src/color.rs"],
  [("decode_atc_block", "src/atc.rs")],
  ["pixels of decode_atc_rgb4/rgba8 and their block functions"])

p("P10", "ETC1 and ETC2 RGB blocks decode every mode as the format defines",
  "For every 8-byte block, ETC1 decodes individual and differential modes with flip, sub-block tables and signed modifiers clamped to 0..255, and ETC2 additionally decodes the T, H and planar modes that its overflowing red, green and blue differences select. The result is opaque, with texels in row order from the column-ordered selector bits.",
  ["inputs"], "all block bit patterns",
  SAMPLE + "; T, H, planar and clamping cases are not asserted.",
  ["src/etc/etc1.rs", "src/etc/etc2.rs", "src/etc/consts.rs", "src/color.rs"],
  [("decode_etc1_block", "src/etc/etc1.rs"), ("decode_etc2_rgb_block", "src/etc/etc2.rs"), ("modifier and order tables", "src/etc/consts.rs")],
  ["pixels of decode_etc1/etc2_rgb and their block functions"])

p("P11", "ETC2 punch-through and 8-bit alpha decode as the format defines",
  "For every block, ETC2 RGBA1 uses the opaque bit in place of the differential bit: opaque blocks decode like ETC2 RGB, others use punch-through modifiers and give alpha 0 exactly to texels whose selector is 2 in the differential, T and H modes, while planar blocks are always opaque. ETC2 RGBA8 takes its alpha from the base, multiplier and table of the leading 8-byte block, clamped to 0..255, and its colour from the following ETC2 RGB block.",
  ["inputs"], "all block bit patterns",
  SAMPLE + ".",
  ["src/etc/etc2.rs", "src/etc/consts.rs"],
  [("decode_etc2_rgba1_block", "src/etc/etc2.rs"), ("decode_etc2_a8_block", "src/etc/etc2.rs"), ("decode_etc2_rgba8_block", "src/etc/etc2.rs")],
  ["pixels of decode_etc2_rgba1/rgba8 and their block functions"])

p("P12", "EAC R11/RG11, signed and unsigned, decode as the format defines",
  "For every block, an EAC channel is 8*base + modifier*multiplier*8 (or modifier alone when the multiplier is 0) around the unsigned or signed base, clamped to the 11-bit range and reduced to the top 8 bits, from a big-endian block. The one-channel formats fill red and the two-channel formats red and green, in that order, with the other channels opaque black.",
  ["inputs"], "all block bit patterns, both signednesses",
  SAMPLE + ".",
  ["src/etc/eac.rs", "src/etc/consts.rs"],
  [("decode_eac_block", "src/etc/eac.rs"), ("decode_eac_signed_block", "src/etc/eac.rs")],
  ["pixels of decode_eacr/eacrg and signed variants and their block functions"])

p("P13", "ASTC LDR blocks decode every mode, partition, plane and endpoint type",
  "For every legal two-dimensional ASTC block at each of the fourteen block footprints, the decoder follows the specification: block mode and weight grid, bounded integer sequences of bits, trits and quints, weight unquantisation and grid infill, single and dual planes, one to four partitions from the partition hash, all LDR colour endpoint modes with blue contraction and offset, and endpoint interpolation. Pixels are the 8-bit RGBA result.",
  ["inputs", "configurations"], "all legal blocks, all footprints",
  SAMPLE + "; only the modes an encoder picks for that picture are decoded, and nothing compares the pixels.",
  ["src/astc.rs", "src/f16.rs"],
  [("decode_block_params, decode_endpoints, decode_weights, select_partition, applicate_color", "src/astc.rs"), ("integer sequence tables", "src/astc.rs")],
  ["pixels of decode_astc, the sized variants and decode_astc_block"])

p("P14", "ASTC void-extent, HDR endpoint and illegal blocks have their defined result",
  "A void-extent block gives its constant colour to every texel (16-bit LDR components reduced to 8 bits, or half-floats clamped to [0,1]); blocks with HDR endpoint modes decode through the HDR rules and are clamped to 8 bits. A block the specification makes illegal (reserved block modes, weight grids larger than the block or than 64 weights, too few or too many weight bits, four partitions with two planes, too many endpoint values or too few bits for them) gives the error colour, opaque magenta, in every texel: never a failure, and it does not disturb other blocks. The coordinates of void extents are ignored.",
  ["inputs", "configurations"], "all blocks that are void-extent, HDR or illegal, all footprints",
  "The sample files are LDR encoder output, so these blocks never occur in the tests.",
  ["src/astc.rs", "src/f16.rs"],
  [("decode_astc_block dispatch", "src/astc.rs"), ("HDR endpoint decoding", "src/astc.rs"), ("fp16_ieee_to_fp32_value", "src/f16.rs")],
  ["outcome and pixels of decode_astc and decode_astc_block"])

p("P15", "PVRTC 2bpp and 4bpp decode by Morton order, wrap-around and modulation",
  "For power-of-two block counts, each PVRTC texel is the modulation blend of the two bilinearly upscaled endpoint colours of the four nearest blocks, found in Morton (Z) order with wrap-around at the image edges. Opaque and translucent colour layouts, the hard and punch-through modes of 4bpp, and the direct, checkerboard-interpolated (both-axis, horizontal and vertical) modes of 2bpp decode as the format defines.",
  ["inputs", "configurations"], "all power-of-two block grids (square and not), all block contents",
  SAMPLE + "; wrap-around, non-square grids and most modulation modes are unasserted.",
  ["src/pvrtc.rs"],
  [("decode_pvrtc", "src/pvrtc.rs"), ("morton_index", "src/pvrtc.rs"), ("get_texel_colors / weights / applicate_color", "src/pvrtc.rs")],
  ["pixels of decode_pvrtc, decode_pvrtc_2bpp, decode_pvrtc_4bpp"])

p("P16", "Crunch texture information reflects exactly what the header says",
  "Asking for texture information succeeds exactly when the caller's structure has the right struct_size, the slice and the claimed size both hold a 74-byte header and the slice holds its table of level offsets, the signature is 'Hx', the header size field is at least 74, the data size field is not larger than the claimed size, and the format code is at most 15 (checksums are not verified). It then reports the header's width, height, level and face counts, user data and format, and 8 bytes per block for DXT1, DXT5A, ETC1, ETC2 and ETC1S, else 16. Otherwise it reports failure; it never fails in any other way and never alters the caller's data.",
  ["inputs"], "all byte strings as Crunch files, all header field values",
  "The tests read three sample headers; invalid, truncated and boundary headers are never tried.",
  ["src/crnlib.rs", "src/crunch/crn_decomp.rs", "src/crunch/crn_consts.rs"],
  [("crnd_get_texture_info", "src/crnlib.rs"), ("crnd_get_header", "src/crunch/crn_decomp.rs")],
  ["boolean result and fields of the texture information"])

p("P17", "Crunch streams decode to the blocks and pixels their symbols encode",
  "For every well-formed Crunch file of a supported format, decoding gives the image whose blocks are the ones the stream's Huffman-coded palettes, chunk tiles and delta-coded indices describe, in row order, the faces below each other, decoded as DXT1, DXT5, DXT5A or DXN blocks at the requested width and height (with the errors of those decoders if there are too few blocks or the image slice is too small). This holds for all sizes, including odd block counts, all face counts and optional palettes.",
  ["inputs", "programs"], "all well-formed Crunch files (formats, sizes, palettes, code-length tables and symbol sequences)",
  "The tests decode a few sample files and assert only that decoding succeeds.",
  ["src/crunch.rs", "src/crunch/crn_unpacker.rs", "src/crunch/crn_symbol_codec.rs", "src/crunch/crn_static_huffman_data_model.rs"],
  [("unpack_dxt1/dxt5/dxn/dxt5a", "src/crunch/crn_unpacker.rs"), ("symbol codec", "src/crunch/crn_symbol_codec.rs"), ("Huffman tables", "src/crunch/crn_static_huffman_data_model.rs")],
  ["pixels of decode_crunch"],
  [("bit buffer", "bits read but not consumed", "src/crunch/crn_symbol_codec.rs"), ("chunk encoding bits", "pending chunk encodings", "src/crunch/crn_unpacker.rs")])

p("P18", "Unity Crunch streams decode to the blocks and pixels their symbols encode",
  "For every well-formed Unity-variant Crunch file of a supported DXT or ETC format, decoding gives the image whose blocks are the ones the stream's Huffman-coded palettes, block references (left, above, above-left) and delta-coded indices describe, in row order, the faces below each other, decoded as blocks of the file's format at the requested width and height (with the errors of that decoder if there are too few blocks or the image slice is too small). This holds for all sizes, including odd block counts.",
  ["inputs", "programs"], "all well-formed Unity Crunch files (formats, sizes, palettes, references and symbol sequences)",
  "The tests decode a few sample files and assert only that decoding succeeds.",
  ["src/unitycrunch.rs", "src/unitycrunch/crn_unpacker.rs", "src/crunch/crn_symbol_codec.rs"],
  [("unpack_dxt1/dxt5/dxn/dxt5a/etc1/etc2a", "src/unitycrunch/crn_unpacker.rs"), ("symbol codec", "src/crunch/crn_symbol_codec.rs")],
  ["pixels of decode_unity_crunch"],
  [("block reference buffer", "endpoint references of the previous row", "src/unitycrunch/crn_unpacker.rs")])

p("P19", "Decoders of fixed-rate formats are total: no bytes make them fail",
  "Whatever the bytes of the blocks are, decoding an image of any fixed-rate format (ATC, ASTC, BC1-7, ETC1/2, EAC, PVRTC) with sufficient slices returns success. It never panics, overflows, hangs or reads past the end of the data, in builds with or without overflow checks, and both kinds of build give the same pixels.",
  ["inputs", "configurations"], "all byte contents, all formats, checked and unchecked builds",
  "The tests decode well-formed encoder output only, so reserved, illegal and overflowing encodings are never executed.",
  ["src/astc.rs", "src/atc.rs", "src/bcn/bc6.rs", "src/bcn/bc7.rs", "src/etc/etc2.rs", "src/pvrtc.rs", "src/bitreader.rs", "src/color.rs"],
  [("block decoders", "src/astc.rs, src/atc.rs, src/bcn, src/etc, src/pvrtc.rs"), ("BitReader", "src/bitreader.rs")],
  ["outcome (return, panic, signal, time) of every fixed-rate decode call"])

p("P20", "Malformed Crunch data is rejected cleanly: no panic, hang or overrun",
  "Whatever bytes are passed as a Crunch or Unity Crunch file, decoding either succeeds or returns an error. It never panics, never loops without end, never reads outside the data, and truncating a well-formed file inside its header is always reported as an error.",
  ["inputs", "fault_sequences"], "all byte strings: truncations, bit flips and field corruptions of well-formed files, with and without recomputed checks",
  "The tests decode intact sample files only.",
  ["src/crunch.rs", "src/unitycrunch.rs", "src/crunch/crn_unpacker.rs", "src/crunch/crn_symbol_codec.rs", "src/crunch/crn_static_huffman_data_model.rs", "src/unitycrunch/crn_unpacker.rs"],
  [("header and table validation", "src/crunch/crn_decomp.rs, src/crunch/crn_unpacker.rs"), ("bounded bit reads", "src/crunch/crn_symbol_codec.rs"), ("code-length checks", "src/crunch/crn_static_huffman_data_model.rs")],
  ["outcome (return, panic, signal, time) of decode_crunch and decode_unity_crunch"])

p("P21", "The Python functions return the Rust pixels as bytes, errors as ValueError",
  "Each Python decode function returns a bytes object of exactly width*height*4 bytes holding, in B, G, R, A order, the pixels the Rust function gives for the same arguments, and raises ValueError with the Rust message when that reports an error. Images no memory can hold and arguments of a wrong kind raise an ordinary Python exception: no argument values crash the interpreter or panic (ASTC: block sides of at least 2), and the input bytes are not modified.",
  ["inputs", "configurations", "histories"], "all Python functions, sizes and data",
  "The Python tests decode one sample per format and check little of the bytes; error cases and odd sizes are absent.",
  ["bindings/python/src/lib.rs"],
  [("decode macro and decode_astc wrapper", "bindings/python/src/lib.rs")],
  ["bytes returned or exception raised by the extension module"])

p("P22", "Without the alloc feature everything but Crunch works the same",
  "The crate compiles without its default feature alloc, and then offers every function except those for Crunch files. Each of them gives, for all arguments, the same result, error text and pixels as with the feature; that includes PVRTC, which then has a second implementation that keeps no table of the blocks.",
  ["configurations", "inputs"], "all functions except Crunch, all arguments, built with --no-default-features",
  "The tests are only built with default features; the other configuration is never even compiled.",
  ["src/lib.rs", "src/pvrtc.rs"],
  [("decode_pvrtc for not(feature = alloc)", "src/pvrtc.rs"), ("conditional modules and exports", "src/lib.rs")],
  ["results and image contents of all functions in a build without the feature"])

p("P23", "32-bit targets give the same results as 64-bit ones",
  "The crate compiles for targets whose usize has 32 bits (no_std users are on such targets: wasm32, microcontrollers), and there every function gives, for all arguments that exist there, the same result, error text and pixels as on a 64-bit target. That includes sizes whose products do not fit 32 bits, which are reported as too little data or too small an image, and Crunch files; nothing panics or overflows there that does not elsewhere.",
  ["configurations", "inputs"], "all functions, all arguments, built for a 32-bit target",
  "The tests are built and run for the machine they are on, which has 64 bits.",
  ["src/macros.rs", "src/bcn/bc3.rs", "src/etc/eac.rs", "src/etc/etc2.rs", "src/astc.rs", "src/bitreader.rs", "src/pvrtc.rs", "src/crunch/crn_unpacker.rs"],
  [("bit strings of 48 and 64 bits", "src/bcn/bc3.rs, src/etc/eac.rs, src/etc/etc2.rs, src/astc.rs"), ("size products", "src/macros.rs, src/pvrtc.rs, src/astc.rs"), ("allocation sizes", "src/crunch/crn_unpacker.rs, src/unitycrunch/crn_unpacker.rs")],
  ["results and image contents of all functions in a build for wasm32"])

p("P24", "Big-endian targets give the same results as little-endian ones",
  "The crate compiles for big-endian targets, and there every function gives, for all arguments, the same result, error text and pixel values (u32 numbers) as on a little-endian target: block data is read as the little-endian bytes the formats define, and a pixel is the number color() makes, whatever the machine's byte order is. That includes Crunch files, whose blocks are built as words in memory and read back.",
  ["configurations", "inputs"], "all functions, all arguments, built for a big-endian target",
  "The tests are built and run for the machine they are on, which is little-endian.",
  ["src/color.rs", "src/macros.rs", "src/bitreader.rs", "src/crunch/crn_consts.rs", "src/crunch/crn_decomp.rs", "src/crunch/crn_unpacker.rs", "src/unitycrunch/crn_unpacker.rs", "src/bcn/bc1.rs", "src/astc.rs"],
  [("pixel numbers", "src/color.rs"), ("blocks built from words", "src/macros.rs, src/crunch/crn_unpacker.rs, src/unitycrunch/crn_unpacker.rs"), ("words read from data", "src/bcn/*.rs, src/etc/*.rs, src/astc.rs, src/pvrtc.rs")],
  ["results and image contents of all functions in a build for s390x"])

p("P25", "Memory use is bounded by the data, and all of it is given back",
  "Decoding a fixed-rate format takes no heap memory, except that PVRTC with the alloc feature may use up to 64 bytes for each block of the image. Decoding a Crunch or Unity Crunch file, or asking for its information, never has more than 256 bytes per byte of the file and 8 MiB in use, whatever sizes, counts and lengths the file claims. Every call gives back all the memory it took, whether it succeeds or fails.",
  ["inputs", "fault_sequences"], "all functions, all data, in particular Crunch headers that claim pictures, palettes and sections of any size",
  "The tests decode a few intact files, whose claims are true, and do not look at memory at all.",
  ["src/crunch/crn_unpacker.rs", "src/unitycrunch/crn_unpacker.rs", "src/crunch/crn_decomp.rs", "src/crunch/crn_static_huffman_data_model.rs", "src/pvrtc.rs", "src/crunch.rs", "src/unitycrunch.rs"],
  [("size of a level", "src/crunch/crn_unpacker.rs, src/unitycrunch/crn_unpacker.rs"), ("tables of a header", "src/crunch/crn_decomp.rs"), ("code tables", "src/crunch/crn_static_huffman_data_model.rs"), ("table of blocks", "src/pvrtc.rs")],
  ["bytes of heap memory in use during a call, at most, and after it"])

p("P26", "Stack use is small, whatever the data and the size of the image",
  "In a build with optimisation no call needs more than 32 KiB of stack, whatever the function, the bytes, the size of the image and the sizes, counts and code tables a Crunch file has or claims: nothing is decoded by recursion over blocks, rows, faces or symbols, and no table on the stack grows with the data. That holds for calls that fail as well.",
  ["inputs", "configurations"], "all functions, all data and sizes, in optimised builds with or without overflow checks",
  "The tests run on threads with megabytes of stack and decode pictures of one size; users of the no_std crate have kilobytes.",
  ["src/macros.rs", "src/astc.rs", "src/pvrtc.rs", "src/bcn", "src/etc", "src/crunch/crn_unpacker.rs", "src/unitycrunch/crn_unpacker.rs", "src/crunch/crn_static_huffman_data_model.rs", "src/crunch/crn_symbol_codec.rs"],
  [("local tables of the block decoders", "src/astc.rs, src/bcn/bc7.rs, src/pvrtc.rs"), ("loops over blocks", "src/macros.rs, src/astc.rs, src/pvrtc.rs, src/crunch/crn_unpacker.rs, src/unitycrunch/crn_unpacker.rs"), ("unpacker and its models", "src/crunch/crn_unpacker.rs, src/crunch/crn_static_huffman_data_model.rs")],
  ["deepest use of the stack during a call"])

with open("/verif/properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
