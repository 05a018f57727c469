# one entry per property; read by catalog.py
p("C01", "ATC and BC1-BC5 blocks decode to exactly the texels the format defines",
  "For every possible block, the ATC RGB, ATC RGBA, BC1, BC1 with alpha, BC2, BC3, BC4 and BC5 block decoders write to each of the sixteen texels exactly the "
  "red, green, blue and alpha value the format defines: endpoint expansion by bit replication, palette entries with truncating integer interpolation, selectors in "
  "row-major order, alpha or channel planes as specified. Texels are packed with blue in the low byte and alpha in the top byte; plain BC1 is opaque, BC1 with alpha makes the "
  "fourth entry of the three-colour mode transparent black. BC4 writes only red and BC5 only red and green, leaving the other channels of the buffer as they were.",
  ["inputs"], "every 64- or 128-bit block and every previous buffer content",
  "The tests decode a handful of images and compare them with references; a block space of 2^64 or more cannot be sampled, and rare cases (equal endpoints, saturated palettes) do not occur in the samples.",
  ["src/atc.rs", "src/bcn/bc1.rs", "src/bcn/bc2.rs", "src/bcn/bc3.rs", "src/bcn/bc4.rs", "src/bcn/bc5.rs", "src/color.rs"],
  [("palette construction and selector loops", "src/bcn/bc1.rs, src/bcn/bc3.rs, src/bcn/bc2.rs, src/atc.rs"), ("565 and 555 expansion, channel packing", "src/color.rs")],
  AI + " compared with an independent format description", "proof",
  "Every texel channel is proved equal to the format description for all blocks; differences are reported with a concrete block. " + TRUST)
p("C02", "ETC1, ETC2 and EAC blocks decode to exactly the texels the format defines",
  "For every possible block, the ETC1, ETC2 RGB, ETC2 RGB with punch-through alpha, ETC2 RGBA, EAC R, EAC RG and signed EAC block decoders write to each of the sixteen texels "
  "exactly the value the format defines, including the T, H and planar modes, the paint-colour clamping, the column-major selector order and the alpha plane. EAC channels are the eight high bits of the "
  "clamped eleven-bit value; in the signed variants the two's complement base is offset by 1023 before clamping, and a zero multiplier acts on the modifier at one eighth of a step. EAC output is opaque, with undefined colour channels zero.",
  ["inputs"], "every 64- or 128-bit block and every previous buffer content",
  "The tests decode a few images; mode selection by overflow of differential colours and the clamping corners are reached by a vanishing fraction of blocks.",
  ["src/etc/etc1.rs", "src/etc/etc2.rs", "src/etc/eac.rs", "src/etc/consts.rs", "src/color.rs"],
  [("mode selection and paint colours", "src/etc/etc2.rs"), ("modifier tables and write order", "src/etc/consts.rs"), ("EAC value and clamp", "src/etc/eac.rs")],
  AI + " compared with an independent format description", "proof",
  "Every texel channel is proved equal to the format description for all blocks; differences are reported with a concrete block. " + TRUST)
p("C03", "BC7 blocks decode to exactly the texels the format defines",
  "For every possible block, the BC7 block decoder writes to each of the sixteen texels exactly the value the format defines, in all eight modes: partition tables and anchor texels, "
  "endpoint fields in channel order with their shared or separate p-bits, expansion to eight bits by replication, interpolation with the 2, 3 and 4-bit weights rounded to nearest, second index set, "
  "index selection and channel rotation; opaque where the mode stores no alpha. A block of the reserved mode decodes to all zeros.",
  ["inputs"], "every 128-bit block",
  "The test decodes one image, which does not reach every mode, partition, rotation and index selection; tables have hundreds of entries.",
  ["src/bcn/bc7.rs", "src/bcn/consts.rs", "src/bitreader.rs"],
  [("mode table and field order", "src/bcn/bc7.rs"), ("partition and anchor tables", "src/bcn/consts.rs"), ("bit extraction", "src/bitreader.rs")],
  AI + " compared with an independent format description, by mode and partition", "proof",
  "Every texel channel is proved equal to the format description for all blocks; differences are reported with a concrete block. " + TRUST)
p("C04", "BC6H blocks decode to the texels the format defines, reduced to eight bits",
  "For every possible block and both signednesses, the BC6H block decoder gives each of the sixteen texels the half-precision value the format defines - bit layout of the fourteen modes, delta endpoints wrapped to the endpoint "
  "precision, sign extension, unquantisation, interpolation with the 3 and 4-bit weights, final scaling by 31/64 or 31/32 - reduced to eight bits by clamping to 0..1, multiplying by 255 and truncating. Alpha is opaque. "
  "A block of a reserved mode decodes to opaque black.",
  ["inputs"], "every 128-bit block, signed and unsigned",
  "The test decodes one unsigned image; the signed path, most partitions and rare endpoint values are never reached.",
  ["src/bcn/bc6.rs", "src/bcn/consts.rs", "src/bitreader.rs", "src/f16.rs"],
  [("mode layouts, deltas and unquantisation", "src/bcn/bc6.rs"), ("half to single precision", "src/f16.rs"), ("bit extraction", "src/bitreader.rs")],
  AI + " compared with an independent format description, with complete tables over intermediate bits", "proof",
  "Every texel channel is proved equal to the format description for all blocks; differences are reported with a concrete block. " + TRUST)
p("C05", "Legal ASTC blocks decode to exactly the texels the format defines",
  "For every legal two-dimensional ASTC block of the fourteen LDR/HDR footprints, decode_astc_block writes to each texel of the footprint the value the format defines: block mode and weight grid, bounded integer sequences of "
  "trits, quints and bits, unquantisation of endpoint values and weights, all sixteen endpoint modes with blue contraction and HDR forms, one to four partitions with the hash-generated pattern, dual planes, weight infill, "
  "interpolation. LDR results are the 16-bit value times 255/65535 as decoded by the crate's rounding ((x*255+32768)/65536); HDR results are the half-precision value clamped to 0..1, times 255, truncated.",
  ["inputs"], "every legal 128-bit block at every footprint",
  "The tests decode one image per footprint; there are more than 270 thousand legal combinations of footprint, mode, partition count and endpoint modes, each with up to 2^100 bodies.",
  ["src/astc.rs"],
  [("block mode and layout", "src/astc.rs decode_block_params"), ("integer sequences", "src/astc.rs decode_intseq"), ("endpoint modes", "src/astc.rs decode_endpoints"),
   ("weights and infill", "src/astc.rs decode_weights"), ("partitions", "src/astc.rs select_partition"), ("interpolation", "src/astc.rs select_color, select_color_hdr")],
  AI + " with staged equivalence against an independent format description", "other",
  "For each header analysed every texel channel is proved for all block bodies (all 1024 partition numbers when the endpoint modes are shared). Headers: every block mode, every grid at every footprint, every endpoint mode with every "
  "value range and partition count; not the full product. " + TRUST)
p("C06", "ASTC error blocks are magenta and void extents are one colour",
  "For every footprint, an ASTC block that is illegal (reserved block mode, grid larger than the footprint, more than 64 weights, fewer than 24 or more than 96 weight bits, dual plane with four partitions, more than 18 endpoint values, too few bits for the "
  "endpoint values) decodes to opaque magenta in every texel, and a legal void-extent block to its own colour in every texel: the high byte of each 16-bit value (LDR), or the finite half-precision value clamped to 0..1, times 255, truncated (HDR).",
  ["inputs"], "every illegal block and every void extent without coordinates",
  "Test images contain no illegal blocks and few void extents.",
  ["src/astc.rs"],
  [("rejection of illegal blocks", "src/astc.rs decode_block_params, decode_astc_block"), ("void extents", "src/astc.rs decode_astc_block")],
  AI + " compared with an independent format description", "other",
  "Illegal headers are enumerated by cause (every reserved mode, every oversized grid, every count), all other bits are symbolic. " + TRUST)
p("C07", "PVRTC images decode to exactly the texels the format defines",
  "For every content of a PVRTC image whose block counts are powers of two, decode_pvrtc gives each texel the value the format defines, at 2 and 4 bits per texel: blocks stored in Morton order (y in the low bit), two colours per block with opaque and "
  "translucent forms expanded to 5/5/5/4 bits, each stretched bilinearly between block centres with wrap-around at the image edges, expanded to eight bits, blended by the texel's modulation in eighths (0/3/5/8; 0/4/4/8 with a transparent hole in the second "
  "mode; 0/8; or the average of stored neighbours in the sparse modes) and truncated. Images that are no multiple of the block size are cropped. Both variants of the function, with and without the alloc feature, agree.",
  ["inputs"], "every block content, neighbouring blocks included",
  "The tests decode one image per rate; neighbouring blocks of different modes, wrap-around at every edge and the sparse modes combine in ways a sample does not reach.",
  ["src/pvrtc.rs", "src/color.rs"],
  [("block colours and modulations", "src/pvrtc.rs get_texel_colors, get_texel_weights_*"), ("stretching and blending", "src/pvrtc.rs applicate_color_*"), ("storage order and neighbours", "src/pvrtc.rs morton_index, decode_pvrtc")],
  AI + " with staged equivalence against an independent format description", "other",
  "Universal in contents; 31 image sizes of 1x1 to 8x8 blocks, cropped ones included, in both variants. " + TRUST)
p("C10", "Block decoders never panic or leave their buffers",
  "Given at least one block of data and a buffer with room for one block of texels, the ATC, BC1-BC7, ETC, EAC and ASTC block decoders return normally for every block content, legal or not: no arithmetic "
  "overflow, no index or slice out of bounds, no failed conversion, no access outside either buffer, even when overflow checks are on.",
  ["inputs"], "every block content, every data length from one block up, every buffer length from one block of texels up",
  "A panic on one block content in 2^64 is invisible to a test that decodes a few images.",
  ["src/atc.rs", "src/bcn/bc1.rs", "src/bcn/bc2.rs", "src/bcn/bc3.rs", "src/bcn/bc6.rs", "src/bcn/bc7.rs", "src/etc/etc1.rs", "src/etc/etc2.rs", "src/etc/eac.rs", "src/astc.rs"],
  [("integer widths chosen to hold every intermediate", "src/bcn/bc3.rs, src/bcn/bc1.rs, src/etc/etc2.rs")],
  AI + " with every assertion and access as an obligation", "proof",
  "Covers all compiler-inserted checks and memory accesses with overflow checks on; ASTC by header as in C05 and C06. " + TRUST)
p("C11", "A block's texels depend only on that block's own bytes",
  "Each texel written by the ATC, BC1-BC7, ETC, EAC and ASTC block decoders is a function of the bytes of that one block, whatever follows it in the data and whatever the buffer held "
  "before; in channels a format does not define (BC4, BC5) a texel keeps its own previous value. Nothing past the texels of the block is written.",
  ["inputs"], "every block content, following data and previous buffer content",
  "Tests use a fresh buffer and compare whole images, so leaking a neighbour's bytes or old buffer contents rarely shows.",
  ["src/atc.rs", "src/bcn/bc1.rs", "src/bcn/bc2.rs", "src/bcn/bc3.rs", "src/bcn/bc6.rs", "src/bcn/bc7.rs", "src/etc/etc2.rs", "src/etc/eac.rs"],
  [("every texel assigned on every path; masks keep other channels", "src/bcn/bc3.rs, src/etc/eac.rs, src/etc/etc2.rs")],
  "dependence (influence) analysis on MIR value graphs", "proof",
  "An influence is reported only with two inputs that differ in it alone and give different texels. " + TRUST)
p("I01", "Whole-image decoders refuse exactly the buffers that are too small",
  "For the ATC, BC1-BC7, ETC, EAC and ASTC image decoders, a call returns an error exactly when the data is shorter than one block for every (possibly partial) tile of the format's block size, or the image has "
  "fewer elements than width times height, for all sizes including zero and including products that do not fit the machine word; decode_astc also refuses block dimensions outside 4 to 12. PVRTC refuses exactly sizes that are not powers of two, "
  "data shorter than one eight-byte block per 8x4 (2bpp) or 4x4 (4bpp) tile (its image rule being the same). On an error the image is left untouched.",
  ["inputs"], "every width, height, data length and image length",
  "The tests only pass exactly fitting buffers of a few sizes.",
  ["src/macros.rs", "src/bcn.rs", "src/etc.rs", "src/atc.rs", "src/astc.rs", "src/pvrtc.rs"],
  [("size checks before the loops", "src/macros.rs (block decoder template), src/astc.rs decode_astc, src/pvrtc.rs decode_pvrtc")],
  AI + " with linear-inequality reasoning on the path condition of every return", "proof",
  "Width, height and both lengths are symbolic and range over all 64-bit values (lengths up to 2^56). " + TRUST)
p("I02", "Whole-image decoders put every block where it belongs",
  "After a successful ATC, BC1-BC7, ETC, EAC or ASTC image decode with blocks of bw by bh texels, the pixel at column x and row y, stored at index y times width plus x, equals texel (x mod bw, y mod bh) of the block in "
  "tile column x div bw and tile row y div bh, blocks being stored row by row, decoded on its own into opaque black. Partial tiles at the right and bottom edge are cropped, and elements past width times height keep their value. "
  "Every decode_<format> function uses the block decoder, block size and byte count of that format.",
  ["inputs"], "every image size, block content and previous image content",
  "The tests use a few sizes, almost all multiples of the block size.",
  ["src/macros.rs", "src/color.rs", "src/bcn.rs", "src/etc.rs", "src/atc.rs", "src/astc.rs", "src/bcn/bc6.rs"],
  [("tile loops and cropping copy", "src/macros.rs, src/color.rs, src/astc.rs")],
  AI + "; image value graphs compared with placed block summaries", "other",
  "Universal in contents, lengths and block decoder behaviour; sizes are enumerated: a grid of small sizes, images 257 to 1030 wide and strips up to 262147 pixels. " + TRUST)
p("I03", "Whole-image decoders never panic",
  "For every width, height, data and image buffer, the ATC, BC1-BC7, ETC, EAC, ASTC and PVRTC image decoders return normally, with Ok or Err: no arithmetic overflow, no index out of bounds, no division by zero, no access outside the buffers.",
  ["inputs"], "every size, buffer length and content",
  "The tests pass well-formed inputs only.",
  ["src/macros.rs", "src/color.rs", "src/astc.rs", "src/pvrtc.rs"],
  [("checked size arithmetic and cropping", "src/macros.rs, src/color.rs, src/astc.rs")],
  AI + " with every assertion and access as an obligation", "other",
  "The size checks are decided for all sizes; the loops at enumerated sizes for all contents and lengths. " + TRUST)
p("I04", "Every build configuration and target decodes alike",
  "The crate builds with and without the alloc feature, with or without an operating system, and on targets with 32-bit words or most-significant-byte-first order, and there every decoder gives the same result as on a 64-bit little-endian host: "
  "texel values, size checks, placement. Without the alloc feature decode_pvrtc is the only function whose implementation changes (its working memory is then of fixed size), not its signature or result.",
  ["inputs"], "every block content, size and buffer length, per configuration",
  "The tests run in one configuration on one machine; nothing in them compiles the other branches of the conditional code.",
  ["src/lib.rs", "src/color.rs", "src/bitreader.rs", "src/bcn/bc1.rs", "src/etc/eac.rs", "src/pvrtc.rs", "src/macros.rs"],
  [("byte order of texels", "src/color.rs"), ("selector words", "src/bcn, src/etc"), ("working memory", "src/pvrtc.rs decode_pvrtc")],
  AI + " of the crate compiled for other configurations", "other",
  "Configurations: 64-bit little-endian without alloc, and 32-bit big-endian without alloc, which together exercise every conditionally compiled branch. ASTC by a sixth of its headers. " + TRUST)
p("B01", "Python functions pass their arguments to the native decoder of the same name",
  "The Python module offers decode_astc(data, width, height, block_width, block_height) and, for every other format, decode_<format>(data, width, height), by position or by name. Each calls the native decoder of the same name once, "
  "with exactly the bytes and numbers given and the whole of a new bytes object of width*height*4 bytes as its image, and returns that object. When the native decoder refuses, a ValueError with its message is raised; when "
  "width*height*4 does not fit the machine word, a ValueError is raised without decoding. No call panics.",
  ["inputs"], "every data length, width, height and block size, and both outcomes of the native decoder",
  "The Python tests decode one image per format and never an erroneous one; forty almost identical functions invite a wrong name or a swapped argument.",
  ["bindings/python/src/lib.rs", "bindings/python/texture2ddecoder_rs.pyi"],
  [("generic and ASTC functions, buffer size", "bindings/python/src/lib.rs pybind!, decode_astc, image_size, as_pixels"), ("registered functions", "bindings/python/src/lib.rs module function")],
  "abstract interpretation of the binding crate's MIR with uninterpreted native calls", "proof",
  "All sizes and lengths are symbolic. Assumes pyo3's conversions and the CPython bytes functions do what they document, and that bytes objects are aligned to four bytes (the native decoder refuses otherwise).")
p("K02", "Crunch files unpack to the blocks their symbols denote",
  "decode_crunch opens the streams the header names (code tables, the palettes of the format, the first level) at the place and with the length given there, reads code tables and symbols in the order of the crn format, and hands the "
  "texture decoder of the format the blocks these symbols denote: palette entries are running sums modulo their field width with the format's selector permutation, chunks take their tiles, endpoints and selectors in serpentine order "
  "from palettes indexed by wrapping running sums, blocks beyond the image are dropped, and only the first face of the first level is shown. It fails, leaving the image alone, when a stream or code table is refused, when the format "
  "has no decoder, or when the texture decoder refuses.",
  ["inputs", "faults"], "every palette content, the streams' symbols, and each stream or table being refused, for enumerated file shapes",
  "The tests decode one 512x512 file of two formats; palette wrap-around, odd block counts, faces, other formats and broken streams never occur in it.",
  ["src/crunch.rs", "src/crunch/crn_unpacker.rs", "src/crunch/crn_decomp.rs", "src/crunch/crn_utils.rs", "src/crunch/crn_consts.rs"],
  [("palettes", "src/crunch/crn_unpacker.rs decode_color_endpoints and following"), ("levels", "src/crunch/crn_unpacker.rs unpack_level"), ("result", "src/crunch.rs decode_crunch")],
  AI + " with an uninterpreted symbol codec", "other",
  "Palette contents are free; sizes, faces, levels, chunk encodings and palette index steps are enumerated or drawn pseudo-randomly per case. The symbol codec itself is outside. " + TRUST)
p("K03", "Unity's crunch files unpack to the blocks their symbols denote",
  "decode_unity_crunch does for Unity's variant of the format (including ETC1, ETC2, ETC2A and the split ETC formats) what decode_crunch does for the original: streams at the header's places, code tables and symbols in the variant's order, "
  "palettes as running sums modulo their field width, blocks taken two by two rows with references to the left, upper or upper left neighbour as the reference symbols say, selectors indexed directly, and for the split formats one or two palette entries per block. "
  "Only the first face of the first level is shown; refused streams, tables, formats and sizes fail and leave the image alone.",
  ["inputs", "faults"], "every palette content, the streams' symbols, and each stream or table being refused, for enumerated file shapes",
  "The tests decode a few square files; odd block counts, faces, wrap-around and broken streams never occur in them.",
  ["src/unitycrunch.rs", "src/unitycrunch/crn_unpacker.rs", "src/unitycrunch/crn_decomp.rs", "src/crunch/crn_utils.rs"],
  [("palettes", "src/unitycrunch/crn_unpacker.rs decode_color_endpoints and following"), ("levels", "src/unitycrunch/crn_unpacker.rs unpack_level"), ("result", "src/unitycrunch.rs decode_unity_crunch")],
  AI + " with an uninterpreted symbol codec", "other",
  "Palette contents are free; sizes, faces, levels and references are enumerated or drawn pseudo-randomly per case. The symbol codec itself is outside. " + TRUST)
