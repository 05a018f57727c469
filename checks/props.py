"""Which analysis decides which property."""

TRUSTED = [
    "rustc (nightly) name resolution, type checking and MIR construction",
    "the abstract transfer functions of /verif/driver (MIR statements, core intrinsics)",
    "the format descriptions in /verif/driver/src/spec*.rs, written from the format documents",
]

PROPS = {}


def prop(pid, level, explanation, rule, trusted=None):
    def deco(f):
        PROPS[pid] = {"run": f, "level": level, "explanation": explanation, "rule": rule}
        if trusted:
            PROPS[pid]["trusted"] = trusted
        return f
    return deco


def merge(*rs):
    out = {"obs": [], "stats": {}, "functions": set()}
    for r in rs:
        out["obs"] += r["obs"]
        for k, v in r["stats"].items():
            out["stats"][k] = out["stats"].get(k, 0) + v
        out["functions"] |= set(r["functions"])
    out["functions"] = sorted(out["functions"])
    return out


def jobs(*names, extra=None, groups=None, must_build=False):
    def run(an, tier, seed):
        an.build()
        rs = []
        for n in names:
            # "job[=only][@target or @noalloc][ VAR=value]"
            n, *more = n.split(" ")
            n, _, conf = n.partition("@")
            job, _, only = n.partition("=")
            e = {"TIER": tier, "ONLY": only}
            e.update(extra or {})
            e.update(m.split("=") for m in more)
            r = an.analyse(job, seed=seed, extra=e, conf=conf, must_build=must_build)
            if groups:
                r["obs"] = [o for o in r["obs"] if o[0] in groups or o[0] in ("job", "build")]
            rs.append(r)
        return merge(*rs)
    return run


VALUE = ("Value-number dataflow analysis of the monomorphised MIR of each block decoder and everything it calls: every "
         "integer is a canonical expression over the block's input bits, states are joined at every program point, and the "
         "resulting expression of every output channel is compared with an independently written description of the format. "
         "A difference is reported only with a concrete block on which both expressions evaluate differently.")

PROPS_DEF = [
    ("C01", jobs("blocks-value=bc", "blocks-value=atc"), "proof", VALUE,
     "one obligation per format, texel and channel: the decoder's expression equals the format's for all 2^64 or 2^128 blocks"),
    ("C02", jobs("blocks-value=etc", "blocks-value=eac"), "proof", VALUE,
     "one obligation per format, texel and channel: the decoder's expression equals the format's for all 2^64 or 2^128 blocks"),
    ("C03", jobs("bptc=bc7"), "proof", VALUE + " Mode, partition, rotation and index selection are enumerated; all other bits are symbolic.",
     "one obligation per mode, partition, rotation, index selection, texel and channel, and one per case for panics and for what a texel depends on"),
    ("C04", jobs("bptc=bc6"), "proof", VALUE + " Mode and partition are enumerated; all other bits are symbolic. For one weight a channel depends on at most 21 bits, "
     "over which both expressions are tabulated completely.",
     "one obligation per signedness, mode, partition, texel and channel, and one per case for panics and for what a texel depends on"),
    ("C05", jobs("astc-blocks", groups=("value",)), "other", VALUE + " The header (block mode, partition count, endpoint modes) is fixed per case, everything else is symbolic; "
     "values both sides compute on the way (unquantised values, endpoints, weights, partition numbers) are proved equal in stages and stand as free variables in the next.",
     "one obligation per header analysed, covering every channel of every texel of its footprint"),
    ("C06", jobs("astc-special", groups=("value",)), "other", VALUE + " For illegal blocks only the bits that make the block illegal are fixed.",
     "one obligation per illegal header and void-extent kind, covering every channel of every texel of its footprint"),
    ("C07", jobs("pvrtc", "pvrtc@noalloc"), "other", VALUE + " Both variants of the decoder, with and without a heap, at enumerated image sizes; block colours, stretched "
     "colours and modulations are proved equal in stages and stand as free variables in the next.",
     "one obligation per variant and image size, covering every channel of every texel, and one for all assertions and accesses met"),
    ("C10", jobs("blocks-panic", "bptc", "astc", extra={"WANT": "panic"}, groups=("panic",)), "proof",
     "The same analysis with interval and bit-level facts: every assertion the compiler inserts (overflow, index, division, shift), "
     "every explicit panic and every memory access in the block decoders and the library code they call is an obligation. "
     "An alarm carries a block that reaches it.",
     "one obligation per decoder covering all assertions and accesses met; a failing one is reported with its function and source line"),
    ("C11", jobs("blocks-footprint", "bptc", "astc", extra={"WANT": "footprint"}, groups=("footprint",)), "proof",
     "Dependence analysis on the expression of each texel: which input bytes and which old buffer contents can influence it, "
     "and which buffer elements are written at all.",
     "one obligation per format and texel: its influences lie in the block's own bytes (plus its own old value in channels the format does not define)"),
    ("I01", jobs("guards", "image-guard"), "proof",
     "The part of every whole-image decoder before its loops is analysed with width, height, data length and image length symbolic; the path condition of "
     "every Err return, and of reaching the loops, is compared with the format's size rule by linear-inequality reasoning, and the image must not be written "
     "before an Err. The same rule is also decided on the whole function at fixed sizes with unknown lengths and contents.",
     "per format: refused implies too small, accepted implies large enough, nothing written on Err, no overflow in the check"),
    ("I02", jobs("image-placement", "image-wide", groups=("placement",)), "other",
     "The expression of every image element after a successful decode is compared with the block decoder's own summary, applied to the bytes "
     "of the block which covers the pixel; elements past width*height must keep their old value. A second run replaces the block decoder by unknown "
     "results named after the block's data offset, which covers every format and larger images.",
     "one obligation per format and size, covering every pixel and the elements after the image"),
    ("I03", jobs("guards", "image-bounds", "image-wide", "pvrtc", "pvrtc@noalloc", extra={"WANT": "bounds"}, groups=("bounds",)), "other",
     "All assertions and memory accesses in the whole-image decoders: for the size checks at symbolic sizes, for the loops at fixed sizes, with unknown lengths and contents.",
     "one obligation per format and size covering all assertions and accesses met"),
]
PPC = "powerpc-unknown-linux-gnu"
PROPS_DEF.append(
    ("I04", jobs(*[f"{j}@{PPC}" for j in ("guards", "image-bounds", "image-wide", "blocks-value=bc", "blocks-value=atc", "blocks-value=etc", "blocks-value=eac",
                                          "bptc=bc7", "bptc=bc6", "pvrtc")], f"astc-blocks@{PPC} STEP=6", f"astc-special@{PPC} STEP=4",
                 "guards@noalloc", "blocks-value@noalloc", "pvrtc@noalloc", must_build=True), "other",
     "The analyses of the other properties repeated on the crate compiled without the alloc feature, and for a target where both differences a decoder could notice are present: "
     "words of 32 bits and most significant byte first (powerpc, core compiled from its source). The conditionally compiled and byte-order dependent code there is different MIR. "
     "All results are compared with the same format descriptions as on the host, so equal results across configurations follow.",
     "one obligation per configuration that it builds, and per configuration all obligations of the analyses repeated"))
PROPS_DEF.append(
    ("B01", jobs("python@python"), "proof",
     "Abstract interpretation of the binding crate's MIR: the module initialiser gives the registered functions and their entry points, and each entry point is analysed with symbolic arguments. "
     "Native decoders are uninterpreted calls into another crate, once succeeding and once refusing; the Python runtime and pyo3's conversions are modelled by what they are documented to do. "
     "Lengths and path conditions are compared by linear-inequality reasoning.",
     "per Python function: registered; and for native success and refusal: parameter names, one call of the native decoder of the same name exactly where width*height*4 has room, with the caller's data and numbers and "
     "the whole new bytes object, and the object or a ValueError with the native message as result"))
CRUNCH = ("Abstract interpretation of the crunch unpackers. The symbol codec is replaced by a source of unknown symbols, each named by its place in the file; the blocks given to the native block decoder are compared, "
          "byte by byte, with those the description derives from the same symbols, and the streams opened and code tables received with those it expects. Palette contents are free, steering symbols and palette index steps are given per case.")
PROPS_DEF += [
    ("K02", jobs("crunch", groups=("crunch",)), "other", CRUNCH,
     "one obligation per file shape (format, size, faces, levels, palette sizes, steering symbols, failing event), covering every block handed on, the streams read and the result"),
    ("K03", jobs("unity", groups=("crunch",)), "other", CRUNCH,
     "one obligation per file shape (format, size, faces, levels, palette sizes, steering symbols, failing event), covering every block handed on, the streams read and the result"),
]
for pid, run, level, ex, rule in PROPS_DEF:
    prop(pid, level, ex, rule)(run)
