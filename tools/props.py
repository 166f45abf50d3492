"""What each check explores: the harness entry points, their parameters and bounds."""
import os, re

HERE = os.path.dirname(os.path.abspath(__file__))
COMMON_ASSUMPTIONS = [
    "the encoded program is the whole-program LLVM IR that rustc (the project's pinned toolchain, release profile with overflow checks and fat LTO) emits for the harness, rexpat and std; the code generator after that IR is trusted",
    "malloc never fails unless the property arms a failure; memory obtained from it and stack memory start with a fixed fill byte",
    "std's SipHash is replaced by a length-only hash (cfg rexpat_symx), so hash-table contents and lookups are real but bucket order is one representative order",
    "the executor's paths are cross-checked against native runs of the same harness on sampled inputs (traces_validated_against_impl)",
]
TPL = re.findall(r'^    \("(\w+)", b"(?:[^"\\]|\\.)*"\),$', open(os.path.join(HERE, "..", "harness", "src", "tpl.rs")).read(), re.M)
EXT = re.findall(r'^    \("(\w+)", b".*\]\),$', open(os.path.join(HERE, "..", "harness", "src", "h_ext.rs")).read(), re.M)
LONG = re.findall(r'^    \("(\w+)", b"(?:[^"\\]|\\.)*"\),$', open(os.path.join(HERE, "..", "harness", "src", "h_long.rs")).read(), re.M)
AR = ("accepted", "rejected")
NS, TRIP, PE1, PE2, SEP0 = 1, 2, 4, 8, 16
M_NS = 32671  # H_ALL and the namespace declaration handlers (harness/src/ctx.rs)


def J(name, entry, params=(), reach=(), unicode=False):
    return {"name": name, "entry": entry, "params": list(params), "reach": list(reach), "unicode": unicode}


def tpls(pat, but=None):
    r = [t for t in TPL if re.fullmatch(pat, t) and not (but and re.fullmatch(but, t))]
    assert r, pat
    return r


def idx(name):
    return TPL.index(name)


def JT(entry, pat, *post, but=None, unicode=False):
    """one job per template whose name matches; parameters: template index, then post"""
    return [J("%s-%s%s-%s" % (entry, t, "-u" if unicode else "", "_".join(map(str, post))), entry, [TPL.index(t)] + list(post), (), unicode) for t in tpls(pat, but)]


def XT(pat, *post, unicode=False):
    """one job of h_ext per text table entry whose name matches"""
    r = [t for t in EXT if re.fullmatch(pat, t)]
    assert r, pat
    return [J("h_ext-%s%s-%s" % (t, "-u" if unicode else "", "_".join(map(str, post))), "h_ext", [EXT.index(t)] + list(post), (), unicode) for t in r]


# h_ext: what the handler does, the other flags (harness/src/h_ext.rs)
X_NONE, X_READ, X_FAIL, X_QUIT, X_FOREIGN, X_BASE, X_NOSTAND = 256, 512, 768, 1024, 2048, 4096, 8192
PROPS = {}
BIG = "tour.*|crlf2|atttokref|crlf"


def prop(i, bounds, quick, thorough=None, tbounds=None, reach=AR, **kw):
    p = {"bounds": bounds, "quick": quick, "reach": reach}
    if thorough:
        p["thorough"] = thorough
        p["tbounds"] = tbounds or bounds
    p.update(kw)
    PROPS[i] = p


DOC = "every document made from the listed templates by replacing each hole by %s free bytes (all 256 values each), fed whole, compared with the reference parser in harness/src/oracle.rs and dtd.rs"
OCC = ["the reference parser in harness/src (oracle.rs, dtd.rs, names.rs) states what a document must yield; it was written from the XML 1.0 and Namespaces recommendations and the documented API, not from the code"]

# ------------------------------------------------------------------ C01
CUT3 = "text|cdata|cdend|comment|pi|attval|endtag|markup|sq|excl|epilog|ref"
ENT_T = "ent.*|pe.*|nsent.*|attdent|atttokent|extskip"
prop("C01", "documents = templates with 1 (bytewise feeding: 2; two-way cuts of a selection: 3) free bytes per hole; every two-way cut, byte-by-byte feeding, XML_GetBuffer/XML_ParseBuffer feeding, over-asked buffers, empty chunks, a separate empty final call, and UTF-16 documents of both byte orders cut anywhere.",
     JT("h_split", CUT3, 3, 0, 0, 0, 0) + JT("h_split", ".*", 1, 0, 0, 0, 0, but=CUT3 + "|tour.*") + JT("h_split", "tour.*", 0, 1, 0, 0, 0) + JT("h_split", ".*", 1, 0, 0, 1, 0, but="tour.*") + JT("h_split", ".*", 2, 0, 0, 2, 0, but=BIG) + JT("h_split", BIG, 1, 0, 0, 2, 0, but="tour") + JT("h_split", ".*", 1, 0, 0, 3, 0, but="tour.*")
     + JT("h_split", ".*", 1, 0, 0, 5, 0, but="tour.*") + JT("h_split", ".*", 1, 0, 0, 6, 0, but="tour.*") + JT("h_split", ".*", 1, 0, 0, 7, 0, but="tour.*") + JT("h_split", ".*", 1, 0, 0, 8, 0, but="tour.*")
     + JT("h_split", "text|tag|xd.*|comment|pi|cdata|ref|dtname|attval|endtag", 1, 0, 0, 0, 3) + JT("h_split", "text|tag|xd|comment|pi|cdata|ref|dtname|attval", 1, 0, 0, 2, 4),
     JT("h_split", ".*", 2, 0, 0, 0, 0, but=BIG) + JT("h_split", CUT3, 4, 0, 0, 0, 0) + JT("h_split", ".*", 2, 0, 0, 1, 0, but=BIG) + JT("h_split", ".*", 3, 0, 0, 2, 0, but=BIG) + JT("h_split", ".*", 2, 0, 0, 3, 0, but=BIG) + JT("h_split", ".*", 1, 0, 0, 4, 0, but="tour.*") + JT("h_split", "tour.*", 1, 0, 0, 0, 0) + JT("h_split", "tour.*", 1, 0, 0, 2, 0)
     + sum([JT("h_split", ".*", 1, 0, 0, m, 0) for m in (5, 6, 7, 8)], []) + sum([JT("h_split", ".*", 1, 0, 0, m, e, but="u3|u4|uname|utext") for m in (0, 2) for e in (3, 4)], [])
     + JT("h_split", ".*", 1, 3, 0, 0, 0) + JT("h_split", ".*", 1, 8, 0, 0, 0) + JT("h_split", ".*", 1, 0, 0, 0, 0, unicode=True),
     "as quick with 2 free bytes for every two-way cut (3 bytewise), every three-way cut with 1, all templates in UTF-16, with namespaces, with parameter entities, and in the UTF-16 build.", tlimit=3000)

# ------------------------------------------------------------------ C02
NOX = "u3|u4|uname|utext"  # contain parts of UTF-8 sequences
NOE = NOX + "|xdenc.*|xdtail|xdboth"
NOL = NOX + "|pro.*|xd.*|any|tour"
ET = "text|tag|attval|name|pi|cdata|comment|ref|entname|entval|attname|dtpubid"
prop("C02", "documents = templates with 1 or 2 free code units per hole written in Latin-1, US-ASCII, UTF-16LE, UTF-16BE (byte order mark, first bytes, declaration, parser creation, XML_SetEncoding) and UTF-8 with byte order mark, each compared with the same characters in UTF-8.",
     JT("h_enc", ".*", 1, 0, 0, 2, 3, 0, but=NOX + "|" + BIG) + JT("h_enc", ".*", 1, 0, 0, 2, 4, 0, but=NOX + "|" + BIG) + JT("h_enc", "tour.*", 0, 1, 0, 3, 4, 0) + JT("h_enc", ET, 2, 0, 0, 3, 1, 0) + JT("h_enc", ET, 2, 0, 0, 4, 2, 0)
     + sum([JT("h_enc", "text|tag|ref|comment", 1, 0, 0, h, k, 0) for h in (0, 1, 4, 5, 6) for k in (3, 4)], []) + JT("h_enc", "text|tag|prolog|attval", 2, 0, 0, 0, 5, 0)
     + JT("h_enc", "text|tag|pi", 1, 0, 0, 0, 3, 1) + JT("h_enc", "text|tag|pi", 1, 0, 0, 0, 4, 1),
     sum([JT("h_enc", ".*", 1, 0, 0, h, k, 0, but=NOE) for h in (0, 1, 2, 3, 4, 5, 6) for k in (3, 4)], []) + sum([JT("h_enc", ".*", 2, 0, 0, h, 1, 0, but=NOL + "|" + BIG) for h in (2, 3, 4)], [])
     + sum([JT("h_enc", ".*", 2, 0, 0, h, 2, 0, but=NOL + "|" + BIG) for h in (2, 3, 4)], []) + JT("h_enc", ".*", 2, 0, 0, 0, 5, 0, but=BIG + "|xdenc.*|xdtail|xdboth") + JT("h_enc", ".*", 2, 0, 0, 2, 5, 0, but=BIG)
     + sum([JT("h_enc", ET, 2, 0, 0, 2, k, 0) for k in (3, 4)], []) + sum([JT("h_enc", ".*", 1, 0, 0, 0, k, 1, but=NOE) for k in (3, 4)], []),
     "all templates, every way of making the encoding known, 2 free units (UTF-16: 1, a selection 2), cut anywhere.", assumptions=OCC[:0] + ["UTF-16 documents with an unpaired leading surrogate are left out (accepted by libexpat and by this port alike)"])

# ------------------------------------------------------------------ the reference parser
MUT = " Also each of these templates with one byte anywhere replaced by any byte, any byte inserted anywhere, cut off anywhere behind one free byte, two neighbours exchanged for any one byte (thorough: two neighbours replaced by any two)."
def doc(i, pat, n, tn, flags=(0,), extra=(), textra=(), tpat=None, but=None, what="", mask=0, **kw):
    q = sum([JT("h_doc", pat, n, f, mask, but=but) for f in flags], []) + list(extra)
    t = sum([JT("h_doc", tpat or pat, tn, f, mask, but=but) for f in flags], []) + list(extra) + list(textra)
    big = "tour.*|crlf2|atttokref|crlf"
    q += sum([JT("h_mut", pat, op, f, mask, but=(but + "|" if but else "") + big) for f in flags for op in (0, 1, 3, 4)], [])
    t += sum([JT("h_mut", pat, op, f, mask, but=(but + "|" if but else "") + "tour.*") for f in flags for op in (0, 1, 2, 3, 4)], [])
    what += MUT
    prop(i, DOC % n + "; templates " + ", ".join(tpls(pat, but)) + "." + what, q, t, DOC % tn + "; templates " + ", ".join(tpls(tpat or pat, but)) + "." + what, assumptions=OCC, tlimit=3000, **kw)


TOUR = " (the long templates tour*, crlf*, atttokref: 1 or 2 free bytes)"
EXTW = " External entities read through the handler (%d documents with their entities' texts, harness/src/h_ext.rs): 1 free byte per hole, or one byte of any one text changed, with the handler absent, idle, reading or failing, the not-standalone handler absent, allowing or refusing, parameter entities never, unless standalone or always read, an application's own DTD, bases; entities fed whole, cut anywhere, byte by byte and through XML_GetBuffer." % len(EXT)
XQ = (XT(".*", 1, X_READ + 8, 0, 0, 0, 0) + XT(".*", 1, X_READ + 8 + X_NOSTAND, 1, 0, 0, 0) + XT(".*", 1, X_READ + 8, 2, 0, 0, 0) + XT(".*", 1, X_READ + 4, 3, 0, 0, 0) + XT(".*", 1, X_READ, 0, 0, 0, 0) + XT(".*", 1, X_READ + 8 + 1, 0, 3, 0, 0)
      + XT(".*", 1, 8, 0, 0, 0, 0) + XT(".*", 1, X_NONE + 8, 0, 0, 0, 0) + XT(".*", 1, X_FAIL + 8, 0, 0, 0, 0) + XT(".*", 1, X_READ + 8 + X_QUIT, 0, 0, 0, 0) + XT(".*", 1, X_READ + 8 + X_FOREIGN, 0, 0, 0, 0) + XT(".*", 1, X_READ + 4 + X_BASE, 0, 0, 0, 0)
      + XT("f.*", 1, X_FOREIGN + 4, 0, 0, 0, 0) + XT("f.*", 1, X_FOREIGN + 8 + X_FAIL, 0, 0, 0, 0) + XT("f.*", 1, X_FOREIGN + X_READ + 4, 1, 0, 0, 0) + XT("f.*", 1, X_FOREIGN + X_READ + X_QUIT + X_BASE + 8, 0, 0, 0, 0) + XT(".*", 1, X_READ + 8 + 3, 0, 0, 0, 0)
      + sum([XT(".*", 0, X_READ + 8, 0, 0, 1 + op, 0) for op in (0, 1, 3)], []) + sum([XT("[vsp].*", 0, X_READ + 8, 0, 0, 1 + op, 1) for op in (0, 1, 3)], []) + sum([XT("f.*", 0, X_READ + X_FOREIGN + 8, 0, 0, 1 + op, 3) for op in (0, 1, 3)], []) + sum([XT("[gf].*", 0, X_READ + X_FOREIGN + 4, 0, 0, 1 + op, 4) for op in (0, 1)], []))
XTH = (XQ + XT(".*", 2, X_READ + 8, 0, 0, 0, 0) + XT(".*", 1, X_READ + 8, 1, 1, 0, 0) + XT(".*", 2, X_READ + 8 + X_FOREIGN, 2, 3, 0, 0) + sum([XT(".*", 0, X_READ + f, 0, 0, 1 + op, k) for op in (0, 1, 3, 4) for k in (0, 1) for f in (0, 4, 9)], [])
       + sum([XT(".*", 0, X_READ + 8, 1, 0, 1 + op, 0) for op in (0, 1, 3, 4)], []) + XT(".*", 0, X_READ + 8, 0, 0, 3, 0) + XT(".*", 0, X_READ + 8, 0, 0, 3, 1) + sum([XT(".*", 0, X_READ + X_FOREIGN + 8, 0, 0, 1 + op, 4) for op in (0, 1, 3, 4)], []) + XT(".*", 1, X_READ + 8, 0, 0, 0, 0, unicode=True) + XT(".*", 1, X_READ + 8 + 1, 1, 0, 0, 0, unicode=True))
EXTG = " External entities read through the handler (harness/src/h_ext.rs): texts with 2 or 3 free bytes per hole or one byte changed."
doc("C03", "text|tag|name|endtag|nest|markup|opentext|prolog|epilog|any|atts2|sq", 4, 5, extra=JT("h_doc", "tour.*", 1, 0, 0), textra=JT("h_doc", "tour.*", 2, 0, 0), what=TOUR)
doc("C04", "text|u3|u4|uname|uname2|utext|opentext|cdata|attval|comment|sq", 3, 4, extra=JT("h_doc", "crlf", 2, 0, 0) + JT("h_doc", "crlf2", 1, 0, 0), textra=JT("h_doc", "crlf2?", 2, 0, 0), what=TOUR)
doc("C05", "ref|charref|hexref|hexref4|decref|attref|hexlong|declong|refattlong", 4, 5)
doc("C06", "attval|attraw|atts2|tag|attref|attcd|attspec|attdup2?|attel|attdent|atttok2?|atttokent|attdval|attdtok|attfix|attcdref|attdtokref", 3, 4, extra=JT("h_doc", "atttokref|crlf2|tourent", 1, 0, 0), textra=JT("h_doc", "atttokref|crlf2|tourent", 2, 0, 0), what=TOUR)
doc("C07", "ns.*|name|tag|atts2", 3, 4, (1, 3), extra=JT("h_doc", "tourns", 2, 1, M_NS) + JT("h_doc", "tourns", 2, 3, M_NS) + JT("h_doc", "tourns", 1, 1 + SEP0, M_NS), textra=JT("h_doc", "tourns", 3, 3, M_NS), what=TOUR, mask=M_NS)
doc("C08", "ent.*", 3, 4, extra=JT("h_doc", "tourent", 2, 0, 0) + XT("g.*", 2, X_READ, 0, 0, 0, 0) + XT("g.*", 0, X_READ, 1, 0, 1, 0), textra=JT("h_doc", "tourent", 3, 0, 0) + XT("g.*", 2, X_READ + 1, 1, 0, 0, 0), what=TOUR + EXTG)
doc("C16", "att|attname|atttype|attenum|attnot|attdflt|attdval|attdtok|attfix|attdup2?|attel|el.*|not.*|deep", 3, 4, extra=JT("h_doc", "tour", 1, 0, 0), what=TOUR)
doc("C17", "xd.*", 4, 5, extra=XT("gdecl|gver|genc|gencv|sdecl|senc", 3, X_READ + 8, 0, 0, 0, 0) + sum([XT("gdecl|gver|genc|gencv|sdecl|senc", 0, X_READ + 8, 0, 0, 1 + op, 0) for op in (0, 1, 3, 4)], []), what=EXTG)
doc("C18", "pi.*|comment.*|cdata|cdopen|cdend|opencd|excl|dtcom|dtpi", 4, 5)
doc("C19", "dt.*|prolog|epilog", 3, 4, extra=JT("h_doc", "tour", 1, 0, 0), what=TOUR)
doc("C20", "pe.*|ext.*|dtcond", 2, 3, (4, 8), extra=JT("h_doc", "tourpe|tourent", 1, 4, 0) + JT("h_doc", "tourpe|tourent", 1, 8, 0) + JT("h_doc", "tourpe", 1, 0, 0) + XQ, textra=JT("h_doc", "tourpe", 2, 8, 0) + XTH, what=TOUR + EXTW)
doc("C23", "dtpubid|entpub|notpub", 4, 5)
prop("C15", "every template with 1 free byte per hole; any one handler kind alone, and all but any one.",
     JT("h_mask", ".*", 1, 0) + JT("h_mask", ".*", 1, 1), JT("h_mask", ".*", 2, 0, but=BIG) + JT("h_mask", "tour.*", 1, 3) + JT("h_mask", ".*", 1, 3) + JT("h_mask", ".*", 1, 8), "2 free bytes; with namespaces, triplets and parameter entities.", assumptions=OCC)

# ------------------------------------------------------------------ stopping, resetting, failing
prop("C10", "every template with 1 free byte per hole: suspended at every event, at any one event (document fed whole, byte by byte), aborted at any event from the handler and while suspended.",
     JT("h_susp", ".*", 1, 0, 0, 1, 0) + JT("h_susp", ".*", 1, 0, 0, 0, 0) + JT("h_susp", ".*", 1, 0, 0, 0, 2) + JT("h_abort", ".*", 1, 0, 0, 0) + JT("h_abort", ".*", 1, 0, 0, 1) + JT("h_susp", "pe.*", 1, 8, 0, 1, 0) + JT("h_susp", "ns.*", 1, 1, 0, 0, 0),
     JT("h_susp", ".*", 2, 0, 0, 1, 0, but=BIG) + JT("h_susp", ".*", 2, 0, 0, 0, 0, but=BIG) + JT("h_susp", "tour.*", 1, 9, 0, 0, 0) + JT("h_susp", "tour.*", 1, 9, 0, 1, 0) + JT("h_susp", ".*", 1, 0, 0, 0, 2) + JT("h_susp", ".*", 1, 0, 0, 0, 1) + JT("h_susp", ".*", 1, 0, 0, 1, 1) + JT("h_susp", ".*", 1, 0, 0, 1, 2)
     + JT("h_abort", ".*", 2, 0, 0, 0, but=BIG) + JT("h_abort", ".*", 2, 0, 0, 1, but=BIG) + JT("h_susp", ".*", 1, 8, 0, 1, 0) + JT("h_susp", ".*", 1, 3, 0, 0, 0),
     "2 free bytes; suspension also combined with every two-way cut.", reach=AR + ("stopped", "aborted"), assumptions=["positions reported for events of an entity's text that is finished after a suspension are not compared"], tlimit=3000)
prop("C11", "first use: every template with 0 or 1 free byte, finished, abandoned at any cut, suspended or aborted at any of the first 6 events, or with an external subset and entities; second use: a document with default attributes, entities or namespaces with 0 or 1 free byte; compared with a new parser.",
     sum([JT("h_reset", ".*", 1, 0, h, 0, idx("attspec"), 0) + JT("h_reset", ".*", 0, 1, h, 0, idx("nsent"), 0) + JT("h_reset", ".*", 0, 12, h, 0, idx("attdent"), 0) + JT("h_reset", ".*", 0, 0, h, 1, idx("atttok"), 0) for h in (0, 1, 2, 3, 4)], []),
     sum([JT("h_reset", ".*", 1, 0, h, 0, idx("attspec"), 1) + JT("h_reset", ".*", 1, 1, h, 0, idx("nsent"), 0) + JT("h_reset", ".*", 0, 12, h, 0, idx("attdent"), 1) + JT("h_reset", ".*", 1, 3, h, 1, idx("atttok"), 0) + JT("h_reset", ".*", 1, 0, h, 0, idx("xd"), 1) for h in (0, 1, 2, 3, 4)], []),
     "1 free byte in both documents.", reach=("reset",), tlimit=3000)
prop("C12", "every template with 1 free byte, with an external subset and entities; any one of the first 90 allocations after parser creation begins fails, or it and all later ones; fed whole, in halves, through XML_GetBuffer.",
     JT("h_oom", ".*", 1, 0, 0, 90, 0) + JT("h_oom", ".*", 1, 9, 0, 90, 2) + JT("h_oom", "tour.*", 1, 9, 0, 300, 0) + JT("h_oom", "tour.*", 1, 12, 0, 300, 0) + JT("h_oom", ".*", 1, 12, 0, 90, 1) + JT("h_oom", ".*", 1, 11, 1, 90, 1),
     JT("h_oom", ".*", 2, 0, 0, 150, 0, but=BIG) + JT("h_oom", "tour.*", 1, 9, 0, 400, 1) + JT("h_oom", "tour.*", 1, 12, 1, 400, 0) + JT("h_oom", ".*", 1, 9, 0, 150, 2) + JT("h_oom", ".*", 1, 12, 0, 150, 1) + JT("h_oom", ".*", 1, 11, 1, 150, 1), "2 free bytes, 150 allocations.", reach=("no parser", "no memory"), tlimit=3000)
prop("C30", "every template with 2 free bytes per hole in the UTF-16 output build, whole and in every two-way cut (1 free byte), and UTF-16/Latin-1 input; external entities (1 free byte, cut anywhere).",
     JT("h_doc", ".*", 2, 0, 0, but=BIG, unicode=True) + JT("h_doc", "tour|tourns|crlf", 1, 1, 0, unicode=True) + JT("h_doc", "ns.*", 2, 3, 0, unicode=True) + JT("h_split", ".*", 1, 0, 0, 0, 0, unicode=True) + JT("h_enc", ET, 1, 0, 0, 2, 3, 0, unicode=True) + JT("h_enc", ET, 1, 0, 0, 2, 1, 0, unicode=True) + XT(".*", 1, X_READ + 8 + 1, 1, 0, 0, 0, unicode=True),
     JT("h_doc", ".*", 3, 0, 0, but=BIG, unicode=True) + JT("h_doc", ".*", 2, 3, 0, but=BIG, unicode=True) + JT("h_split", ".*", 1, 0, 0, 2, 0, unicode=True) + JT("h_split", ".*", 1, 0, 0, 0, 0, unicode=True) + JT("h_susp", ".*", 1, 0, 0, 1, 0, unicode=True)
     + JT("h_enc", ".*", 1, 0, 0, 2, 3, 0, but=NOX, unicode=True) + JT("h_enc", ".*", 1, 0, 0, 2, 4, 0, but=NOX, unicode=True) + JT("h_enc", ET, 1, 0, 0, 2, 1, 0, unicode=True), "3 free bytes; suspension; all templates in UTF-16.", assumptions=OCC, tlimit=3000)

# ------------------------------------------------------------------ any bytes
def RAWX(pat, *post):
    return [J("h_raw-x%s-%s" % (t, "_".join(map(str, post))), "h_raw", [1000 + EXT.index(t)] + list(post), ()) for t in EXT if re.fullmatch(pat, t)]


RAW = lambda pat, *post, but=None: JT("h_raw", pat, *post, but=but)
LONGR = "tour.*|crlf2|atttokref|nsent.*|attdtokref|attcdref"
prop("C13", "every template, and every set of texts of external entities, with 1 or 2 free raw bytes per hole or one byte changed, inserted or cut off anywhere, in UTF-8, UTF-16 of both orders (with and without byte order mark; odd lengths), Latin-1, US-ASCII and an application-supplied multi-byte encoding; fed whole, cut anywhere, byte by byte, through XML_GetBuffer, or given up anywhere; all handlers, none, default handlers that expand or do not, XML_DefaultCurrent everywhere; texts 1018 to 1023 bytes longer. Every load and store of every path is checked against the bounds and lifetime of its block and against uninitialised contents; panics, overflows, endless paths (3 million instructions) and blocks left over are violations.",
     RAW(".*", 1, 9, 0, 20, 0, 0, 0) + RAW(".*", 1, 9, 1, 21, 0, 0, 0, but=LONGR) + RAW(".*", 1, 9, 2, 1, 0, 0, 0, but="tour.*") + RAW(".*", 1, 521, 0, 21, 0, 0, 0) + RAW(".*", 1, 1289, 0, 1, 0, 0, 0, but="tour.*") + RAW(".*", 1, 3, 1, 0, 0, 0, 0) + RAW(".*", 1, 3, 2, 3, 0, 0, 0) + RAW(".*", 1, 8, 5, 0, 0, 0, 0)
     + RAW(".*", 1, 0, 6, 0, 0, 0, 0) + RAW(".*", 1, 9, 3, 4, 0, 0, 0) + RAW(".*", 1, 9, 4, 0, 0, 0, 0) + RAW(".*", 1, 9, 7, 0, 0, 0, 0, but=BIG) + RAW("any|text|prolog|xd|name|tag|comment|pi|cdata|attval|dtname|entval", 4, 9, 0, 0, 0, 0, 0) + RAW("any|text|prolog|name|tag|comment|pi", 3, 9, 1, 3, 0, 0, 0)
     + sum([RAW(".*", 0, 9, k, 0, 1 + op, 4, 0, but="tour.*") for k, op in ((0, 0), (1, 0), (2, 3), (1, 1), (7, 3), (0, 3))], []) + RAW("xd.*|text|tag|pi|name|ref|dtname|entname", 0, 9, 7, 0, 1, 4, 0)
     + RAWX(".*", 1, 9, 0, 20, 0, 0, 0) + RAWX("[gv].*|s[a-e].*", 1, 9, 1, 21, 0, 0, 0) + RAWX(".*", 1, 2056, 2, 0, 0, 0, 0) + RAWX(".*", 1, 4, 3, 3, 0, 0, 0) + RAWX(".*", 0, 8, 1, 0, 1, 0, 0) + RAWX(".*", 0, 8, 2, 0, 4, 1, 0) + RAWX("[sv].*", 0, 8, 0, 0, 2, 0, 0) + RAWX("v.*", 0, 8, 0, 3, 1, 1, 0)
     + RAW("text|tag|name|comment|pi|cdata|attval|ref|entname|entval|dtpubid|attname|elname|xdver|nsuri|nspi", 1, 9, 0, 0, 0, 0, 1018) + RAW("text|tag|name|comment|pi|cdata|attval|ref", 1, 1, 1, 1, 0, 0, 504) + RAW("text|tag|name|comment|pi|cdata|attval|entval", 1, 9, 0, 20, 0, 0, 1018),
     RAW(".*", 2, 9, 0, 1, 0, 0, 0, but=BIG) + RAW(".*", 2, 9, 1, 20, 0, 0, 0, but=BIG) + RAW(".*", 2, 9, 2, 3, 0, 0, 0, but=BIG) + RAW(".*", 2, 9, 3, 21, 0, 0, 0, but=BIG) + RAW(".*", 2, 9, 7, 0, 0, 0, 0, but=BIG) + RAW(".*", 1, 9, 7, 20, 0, 0, 0, but=BIG) + RAW(".*", 1, 9, 0, 1, 0, 0, 0) + RAW(".*", 1, 1289, 1, 1, 0, 0, 0)
     + sum([RAW(".*", 0, 9, k, 0, 1 + op, 4, 0, but="tour.*") for k in (0, 1, 2, 3, 5, 7) for op in (0, 1, 2, 3, 4)], []) + sum([RAW(".*", 0, 9, k, 3, 1 + op, 4, 0, but="tour.*") for k in (0, 1) for op in (0, 1, 3)], [])
     + RAWX(".*", 2, 9, 0, 0, 0, 0, 0) + RAWX(".*", 1, 9, 0, 1, 0, 0, 0) + RAWX(".*", 1, 9, 1, 21, 0, 0, 0) + RAWX(".*", 1, 2056, 2, 20, 0, 0, 0) + sum([RAWX(".*", 0, 8, k, m, 1 + op, w, 0) for k in (0, 1) for m in (0, 3) for op in (0, 1, 3) for w in (0, 1)], []) + RAWX(".*", 1, 8, 7, 0, 0, 0, 0)
     + RAW("any|text|prolog|xd|name|tag|comment|pi|cdata|attval|dtname|entval", 5, 9, 0, 0, 0, 0, 0) + RAW(".*", 1, 9, 0, 20, 0, 0, 1018, but=LONGR) + RAW(".*", 1, 9, 1, 0, 0, 0, 504, but=LONGR),
     "2 free bytes in every encoding, also given up anywhere or byte by byte; every change of one byte in every encoding.", tlimit=3000)

# ------------------------------------------------------------------ positions, context, default handler
POSJ = lambda pat, n, f, m, e, w, fill=0, but=None: JT("h_pos", pat, n, f, 0, m, e, w, fill, but=but)
FILL = "text|tag|pi|ref|comment|cdata|epilog"
NODECL = "pe.*|tour.*|entdup|entpre|nsentn|entname|ents?"
prop("C09", "every template with 1 free byte, UTF-8: whole, cut anywhere, byte by byte; with namespaces, with parameter entities; UTF-16 of both orders and Latin-1, whole and (a selection) cut anywhere; a selection behind 600-1030 line ends (buffer growth). Index, count, line and column inside every handler and after an error.",
     POSJ(".*", 1, 0, 0, 0, 5, but=NOX) + POSJ(NOX, 2, 0, 0, 0, 1) + POSJ(".*", 1, 0, 1, 0, 1, but="tour.*") + POSJ(".*", 1, 0, 2, 0, 1, but="tour.*") + POSJ(".*", 1, 1, 0, 0, 1) + POSJ("pe.*|ext.*|tourpe", 1, 8, 0, 0, 1) + sum([POSJ(".*", 1, 0, 0, k, 1, but=NOX + "|" + BIG) for k in (1, 3, 4)], [])
     + POSJ(FILL, 1, 0, 0, 0, 1, 1020) + POSJ(FILL, 1, 0, 2, 0, 1, 1020) + POSJ("text|pi|tag", 0, 0, 1, 0, 1, 1020) + POSJ("text", 0, 0, 1, 3, 1, 600),
     POSJ(".*", 2, 0, 0, 0, 5, but=BIG) + POSJ(".*", 2, 0, 1, 0, 1, but=BIG) + POSJ(BIG, 1, 1, 1, 0, 1) + POSJ(".*", 2, 1, 2, 0, 1, but=BIG) + POSJ(".*", 1, 0, 3, 0, 1) + POSJ(".*", 1, 8, 1, 0, 1) + sum([POSJ(".*", 1, 0, m, k, 1, but=NOX) for k in (1, 3, 4) for m in (1, 2)], []) + sum([POSJ("text|tag|pi|comment|crlf|ref|attval", 2, 0, 0, k, 1) for k in (3, 4)], [])
     + POSJ(FILL, 1, 0, 1, 0, 1, 1020) + POSJ(FILL, 1, 0, 3, 0, 1, 1020) + POSJ(FILL, 1, 0, 2, 0, 1, 2060) + POSJ(FILL, 0, 0, 1, 3, 1, 1020), "2 free bytes; every template cut anywhere in every encoding.", tlimit=3000)
prop("C27", "every template with 1 free byte: whole, cut anywhere, byte by byte, through XML_GetBuffer; a selection behind 600-2060 line ends so that the buffer is moved and grown; UTF-16.",
     POSJ(".*", 1, 0, 0, 0, 2) + POSJ(".*", 1, 0, 1, 0, 2, but="tour.*") + POSJ(".*", 1, 0, 2, 0, 2, but="tour.*") + POSJ(".*", 1, 0, 3, 0, 2, but="tour.*") + POSJ(FILL, 1, 0, 2, 0, 2, 1020) + POSJ(FILL, 0, 0, 2, 0, 2, 2060) + POSJ("text|pi|tag", 0, 0, 1, 0, 2, 1020) + POSJ("text|pi", 0, 0, 3, 0, 2, 1020) + POSJ("text", 0, 0, 1, 3, 2, 600),
     POSJ(".*", 2, 0, 1, 0, 2, but=BIG) + POSJ(BIG, 1, 1, 1, 0, 2) + POSJ(".*", 1, 9, 3, 0, 2) + POSJ(FILL, 1, 0, 1, 0, 2, 1020) + POSJ(FILL, 1, 0, 3, 0, 2, 1020) + POSJ(FILL, 1, 0, 1, 0, 2, 2060) + POSJ(FILL, 1, 0, 2, 0, 2, 3100) + POSJ(FILL, 0, 0, 1, 3, 2, 1020), "2 free bytes.", tlimit=3000)
DEF = lambda pat, n, how, m, e, but=None, unicode=False: JT("h_def", pat, n, 0, how, m, e, but=but, unicode=unicode)
prop("C14", "every template with 1 free byte: only the default handler (XML_SetDefaultHandler, and the expanding one), all content handlers passing their events on with XML_DefaultCurrent, every subset of the content handlers, any one declaration handler; whole and (default handler only) cut anywhere, byte by byte, in UTF-16 and Latin-1 and in the UTF-16 build.",
     sum([DEF(".*", 1, h, 0, 0, but=None if h == 0 else "tour.*") for h in (0, 1, 2)], []) + DEF("tour", 0, 2, 0, 0) + DEF(".*", 1, 0, 1, 0, but="tour.*") + DEF(".*", 1, 2, 2, 0, but="tour.*") + DEF("text|tag|pi|comment|cdata|ref|dtname|crlf2", 1, 0, 0, 3) + DEF("text|tag|pi|comment|cdata|ref", 1, 2, 0, 1) + DEF("text|tag|pi|comment|cdata|ref|u3", 1, 0, 0, 0, unicode=True)
     + JT("h_rest", ".*", 1, 0, 0, but="tour.*|crlf2") + JT("h_rest", "tour|crlf2", 0, 0, 0) + JT("h_rest", ".*", 1, 0, 1, but=NODECL) + JT("h_rest", "tour", 0, 0, 1),
     sum([DEF(".*", 2, h, 0, 0, but=BIG) for h in (0, 1, 2)], []) + DEF(".*", 1, 0, 1, 0) + DEF(".*", 1, 2, 2, 0) + DEF(".*", 1, 2, 1, 0, but="tour.*") + sum([DEF(".*", 1, 0, m, k, but=NOX) for m in (0, 1) for k in (1, 3, 4)], []) + DEF(".*", 1, 0, 0, 0, unicode=True) + DEF(".*", 1, 2, 1, 3, but=NOX + "|tour.*", unicode=True)
     + JT("h_rest", ".*", 2, 0, 0, but=BIG) + JT("h_rest", BIG, 1, 0, 0) + JT("h_rest", ".*", 2, 0, 1, but=NODECL + "|" + BIG) + JT("h_rest", "tour", 1, 0, 1), "2 free bytes; all templates in UTF-16 and Latin-1 and in the UTF-16 build.", tlimit=3000)

# ------------------------------------------------------------------ unknown encodings, API states
prop("C22", "byte maps in which one entry of the lower or upper half is any 32-bit value (rejection, and its meaning in a document); documents = templates whose holes hold units of 1 byte (every mapped character up to U+FFFF) or 2-4 bytes (converter results: representative values of every UTF-8 length, surrogates, negatives, out of range), a page map with one representative per page; encoding named by declaration, at creation or later; external entities; release counted.",
     [J("h_unkmap-%s" % "_".join(map(str, p)), "h_unkmap", p) for p in ((0, 0, 0, 0), (0, 1, 0, 0), (1, 0, 1, 1), (2, 1, 0, 1), (3, 1, 1, 0))]
     + sum([JT("h_unk", ".*", n, 0, 0, 9, 1, 0, 1, but=BIG) for n in (1, 2, 3, 4)], []) + JT("h_unk", "text|tag|attval|pi|comment|cdata", 2, 0, 1, 9, 1, 1, 1) + JT("h_unk", "text|tag|attval|ref", 2, 0, 2, 9, 2, 0, 1) + JT("h_unk", "text|attval|cdata|name", 3, 0, 0, 0, 1, 0, 1) + JT("h_unk", "text", 1, 0, 0, 9, 1, 0, 0) + JT("h_unk", "text|attval", 2, 0, 0, 2, 1, 0, 1)
     + JT("h_unk", "text|attval|name|pi", 2, 0, 0, 9, 1, 0, 1, unicode=True) + [J("h_unkext-%d" % k, "h_unkext", (k,)) for k in (0, 1)] + [J("h_encname-u%d" % n, "h_encname", (n, h, 1, 1)) for n, h in ((5, 0), (6, 0))],
     [J("h_unkmap-%s" % "_".join(map(str, p)), "h_unkmap", p) for p in [(a, b, c, d) for a in (0, 1, 2, 3) for b in (0, 1) for c in (0, 1) for d in (0, 1)]]
     + sum([JT("h_unk", ".*", n, 0, 0, 9, 1, 0, 1, but=BIG) for n in (1, 2, 3, 4)], []) + sum([JT("h_unk", "text|tag|attval|ref|name|pi|comment|cdata|entval|attname|endtag", n, 0, 0, 9, 1, 0, 0) for n in (1, 2)], []) + sum([JT("h_unk", "text|tag|attval|ref|name|pi|comment|cdata|entval|attname", n, f, 1, 9, 1, 1, 1) for n in (1, 2, 3) for f in (0, 1)], [])
     + sum([JT("h_unk", "text|tag|attval|ref|name|pi|comment|cdata|entval", n, 0, 0, m, 1, 0, 1) for n in (1, 2, 4) for m in (0, 2)], []) + sum([JT("h_unk", ".*", n, 0, 2, 9, 1, 0, 1, but=BIG, unicode=True) for n in (1, 2)], []) + [J("h_unkext-%d" % k, "h_unkext", (k,)) for k in (0, 1)],
     "as quick, all ways of naming the encoding, with a free byte after the unit, and the full range of mapped values for 11 templates.", reach=AR, assumptions=OCC + ["documents in which a non-ASCII byte is mapped to $ or @ and used in a public identifier are left out (the identifier check looks at the byte's character class, in libexpat as here)"], tlimit=3000)
prop("C25", "every sequence of 2 calls out of 20 kinds with choice of arguments (3 in the thorough tier) in 7 states (new, fed a part, suspended, aborted, finished, failed, reset), all calls refused inside handlers over every template, nested parsers, the null parser, handlers exchanged in any handler.",
     [J("h_api-%s" % "_".join(map(str, p)), "h_api", p) for p in [(2, 0, s) for s in range(7)] + [(1, 1, s) for s in range(7)]] + JT("h_apih", ".*", 1, 0) + JT("h_apih", ".*", 1, 9) + [J(e, e) for e in ("h_apic", "h_apin", "h_apisalt", "h_apisw")],
     [J("h_api-%s" % "_".join(map(str, p)), "h_api", p) for p in [(2, d, s) for s in range(7) for d in (0, 1)] + [(3, 0, s) for s in range(7)]] + JT("h_apih", ".*", 2, 0, but=BIG) + JT("h_apih", ".*", 1, 9) + [J(e, e) for e in ("h_apic", "h_apin", "h_apisalt", "h_apisw")],
     "3 calls in a row.", reach=(), tlimit=3000)
prop("C26", "every value of the error code argument (32 bits); version and feature list of the standard and the UTF-16 build.", [J("h_errstr", "h_errstr"), J("h_version", "h_version"), J("h_version-u", "h_version", (), (), True)], reach=())
prop("C28", "8 encoding names (supported in any letter case, unsupported) x given at creation, set before, set again, set to none, with and without unknown-encoding handler and declaration; documents in Latin-1, US-ASCII, UTF-8 and UTF-16 with free bytes whose encoding is given by the application, compared with the same characters in UTF-8.",
     [J("h_encname-%d%d%d%d" % (n, h, k, d), "h_encname", (n, h, k, d)) for n in range(7) for h in range(5) for k in (0, 1) for d in (0, 1)] + [J("h_encname-2500", "h_encname", (2, 5, 0, 0)), J("h_encname-6510", "h_encname", (6, 5, 1, 0))]
     + sum([JT("h_enc", "text|tag|attval|xd.*|pi|prolog", 1, 0, 0, h, k, 0, but=NOE) for h in (3, 4) for k in (1, 2, 3, 4)], []),
     sum([JT("h_enc", "text|tag|attval|xd.*|pi|prolog", 1, 0, 0, h, k, 1, but=NOE) for h in (3, 4) for k in (1, 2, 3, 4)], []) + [J("h_encname-%d%d%d%d" % (n, h, k, d), "h_encname", (n, h, k, d)) for n in range(7) for h in range(5) for k in (0, 1) for d in (0, 1)], "also cut anywhere.", reach=())

# ------------------------------------------------------------------ sizes
def LJ(pat, base, enc=5, feed=0, fill=(0,), free=(1,), rng=0, mask=0, triplets=False, unicode=False):
    sel = [t for t in LONG if re.fullmatch(pat, t) and (t != "default" or mask)]
    assert sel, pat
    p = [[LONG.index(t), base, (3 if triplets else 1) if t[:2] == "ns" else 0, enc, feed, fl, fr, 0, rng, mask] for t in sel for fl in fill for fr in free]
    return [J("h_long-%s%s-%s" % (LONG[q[0]], "-u" if unicode else "", "_".join(map(str, q[1:]))), "h_long", q, (), unicode) for q in p]


LNAME = "name.*|attname|entname|dtname|notname|elname|elgrp|attenum|attdname|attel|pename|pitarget|ns.*"
LTEXT = "text|cdata|comment|pi|attval|attdval|entval|entvala|peval|two"
prop("C21", "39 constructs (text, sections, comments, instructions, names, values, identifiers, declarations, entities, URIs, prefixes) grown to every length within 8 bytes of 32, 64, 1024 and 2048 (names and values: a window of 60 lengths below 1024 too), at every alignment, made of characters of 1-4 bytes, line ends, references; at the end one free byte or character; UTF-8, Latin-1, UTF-16; whole, cut near the end, in pieces of 37 and 100 bytes; default handler; UTF-16 build. No delivery of character data is empty or divides a character.",
     LJ(".*", 1024, free=(1,)) + LJ(".*", 1024, 1, fill=(1,), free=(1,)) + LJ(".*", 1024, 3, fill=(2,), free=(2,)) + LJ(".*", 64, fill=(0, 2), free=(1, 2), rng=10) + LJ(".*", 32, fill=(0,), free=(2,), rng=20) + LJ(".*", 64, 4, fill=(0, 2), free=(2,), rng=20) + LJ(LTEXT, 1024, 4, fill=(3,), free=(3,)) + LJ(LTEXT + "|ref|ent.*|dt.*", 2048, 1, fill=(0, 1), free=(0,)) + LJ(LTEXT, 1024, 1, fill=(9,), free=(1,))
     + LJ(LNAME + "|" + LTEXT + "|dtsys|dtpub|notpub|entsys", 1024, fill=(0,), free=(2,), rng=60, triplets=True) + LJ("text|cdata|comment|pi|name|attval|entval", 1024, feed=3, fill=(0, 2), free=(1,)) + LJ("text|cdata|comment|pi|name|attval|entval", 1024, 3, feed=4, fill=(2,), free=(2,)) + LJ(LTEXT + "|name", 1024, 1, feed=2, fill=(1,), free=(0,)) + LJ("text|cdata", 1024, 3, feed=1, fill=(3,), free=(3,))
     + LJ(".*", 1024, 3, fill=(2, 3), free=(0,), mask=32) + LJ("text|cdata|comment|pi|name|attval|entval|default", 1024, 1, feed=1, fill=(9,), free=(1,), mask=32) + LJ("text|two|ref|epilog|prolog|intag", 1024, fill=(4, 5), free=(1,)) + LJ("text|cdata|epilog|prolog|intag", 1024, 1, fill=(4, 5), free=(0,)) + LJ("text|cdata|two|attval", 1024, 1, fill=(8, 6, 10, 11), free=(0,))
     + LJ(LTEXT + "|name|attname|entname", 1024, fill=(2,), free=(2,), unicode=True) + LJ(LTEXT, 1024, 3, fill=(3,), free=(3,), unicode=True) + LJ("name.*|ns.*", 32, fill=(0,), free=(2,), rng=20, unicode=True),
     LJ(".*", 1024, fill=(0, 1, 2, 9), free=(1, 2), rng=0) + LJ(".*", 1024, 1, fill=(0, 1), free=(1,)) + LJ(".*", 1024, 3, fill=(0, 2), free=(1, 2)) + LJ(".*", 1024, 4, fill=(1, 3), free=(1, 3)) + LJ(".*", 64, fill=(0, 1, 2), free=(4,), rng=10) + LJ(".*", 64, 3, fill=(0, 2, 3), free=(1, 3), rng=30) + LJ(LTEXT + "|ref|ent.*|dt.*", 2048, 1, fill=(0, 1), free=(1,)) + LJ(".*", 2048, 3, fill=(2,), free=(2,)) + LJ(".*", 4096, 1, fill=(1,), free=(0,))
     + LJ(".*", 1024, fill=(0, 2), free=(2,), rng=140, triplets=True) + LJ(".*", 1024, 1, fill=(1,), free=(0,), rng=140) + LJ(".*", 1024, feed=3, fill=(0, 2), free=(1,)) + LJ(".*", 1024, feed=4, fill=(2, 5), free=(2,)) + LJ(".*", 1024, 3, feed=4, fill=(2,), free=(2,)) + LJ(LTEXT + "|name", 1024, 1, feed=2, fill=(1, 9), free=(1,)) + LJ(".*", 1024, 3, feed=1, fill=(3,), free=(3,))
     + LJ(".*", 1024, 3, fill=(2, 3), free=(1, 3), mask=32) + LJ(".*", 1024, 1, feed=1, fill=(9,), free=(1,), mask=32) + LJ(".*", 1024, fill=(9,), free=(1,), mask=32) + LJ(".*", 1024, fill=(4, 5, 6, 8, 10, 11), free=(1,)) + LJ(".*", 1024, 1, fill=(4, 5, 6, 8, 10, 11), free=(1,))
     + LJ(".*", 1024, fill=(1, 2, 3), free=(1, 3), unicode=True) + LJ(".*", 1024, 3, fill=(3,), free=(3,), unicode=True) + LJ(".*", 32, fill=(0,), free=(2,), rng=20, unicode=True) + LJ(".*", 512, fill=(2,), free=(2,), rng=40, unicode=True), "also 4096, two free bytes, 140 lengths below 1024, every construct in every encoding and feeding.", assumptions=OCC, tlimit=3000)

NSK = (1, 4, 5, 6, 16, 21, 22, 23)


def CJ(kinds, lo, cnt, fb=1, feed=0, wide=0, again=0, extra=0, unicode=False):
    return [J("h_count%s-%d-%d_%d_%d_%d_%d_%d_%d" % ("-u" if unicode else "", k, lo, cnt, fb, feed, wide, again, extra), "h_count", (k, lo, cnt, (1 if k in NSK else 8 if k == 18 else 0) | (extra if k in NSK else 0), fb, feed, wide, 0, again), (), unicode) for k in kinds]


K22 = range(24)
prop("C29", "24 kinds of documents (attributes, prefixed attributes, open elements, siblings, namespace declarations on one or nested elements, growing URIs, bindings that open elements share and that long names make grow, default attributes, declared elements, content models of many children or deep groups, entities side by side and nested in content, attributes and parameter entities, enumerations, notations, long values) with every count from 1 to 36 and 60 to 69, with 1 free byte (2 around 8, 16 and 32) in a name or value that may equal any of the others; whole, in pieces of 37 bytes, after a reset, in UTF-16, UTF-16 build.",
     CJ(K22, 1, 36) + CJ([k for k in K22 if k != 5], 60, 10) + CJ(K22, 7, 2, 2) + CJ(K22, 15, 3, 2) + CJ(K22, 32, 2, 2) + CJ(K22, 14, 4, 1, 37) + CJ(K22, 31, 3, 1, 37, 1) + CJ(K22, 15, 3, 1, 0, 0, 1) + CJ(NSK, 1, 34, 1, 0, 0, 0, 2) + CJ(K22, 1, 34, 0, unicode=True),
     CJ(K22, 1, 40, 2) + CJ([k for k in K22 if k != 5], 40, 40, 1) + CJ(K22, 1, 36, 1, 37) + CJ(K22, 1, 36, 1, 7, 1) + CJ(K22, 1, 36, 1, 0, 0, 1) + CJ(NSK, 1, 36, 2, 0, 0, 0, 2) + CJ(K22, 1, 36, 1, unicode=True) + CJ(K22, 14, 4, 3), "2 free bytes for every count to 40 (3 around 16), 1 for counts to 79.", assumptions=OCC, maxsteps=60000000, tlimit=3000)

# ------------------------------------------------------------------ C24: xmlwf
WARGS = re.findall(r'^    \("(\w+)", &\[.*\]\),$', open(os.path.join(HERE, "..", "harness", "src", "h_wf.rs")).read(), re.M)


def WJ(args, pat, free=1, state=0, op=0, cut=0, copy=0, but=None, ext=False):
    names = [x for x in EXT if re.fullmatch(pat, x)] if ext else tpls(pat, but)
    assert names, pat
    return [J("h_wf-%s-%s_%d_%d_%d_%d_%d" % (a, t, free, state, op, cut, copy), "h_wf", ((1000 + EXT.index(t)) if ext else TPL.index(t), free, WARGS.index(a), state, op, cut, copy)) for a in args.split() for t in names]


WBIG = "tour.*|crlf2|atttokref"
WFEW = "text|tag|attval|atts2|nsdecl|prolog|notation|not.*|ref"
WALL = [a for a in WARGS if a not in ("opt2", "optfile", "opt", "encname", "optend", "dir", "dir2", "optlast", "two", "two2", "two3")]
prop("C24", "xmlwf's main run on files in memory: %d argument vectors (every option alone and combined, option letters, encoding names, directories and file names of 1 or 2 free bytes) over every template with 1 free byte, over a selection with one byte changed, inserted, cut off or exchanged, over the documents with external entities (1 free byte; one byte of the document changed); mapped, read whole, read in pieces cut anywhere, from standard input; a file missing, a directory, not to be examined, failing to be read, shorter than announced, too big to map. Exit status, standard output (file, line, column and reason for every rejected file, in order), the names, contents and removal of output files, descriptors and memory." % len(WARGS),
     WJ(" ".join(WALL), ".*", but=WBIG + "|any") + WJ("encname optend dir dir2 optlast opt two two2 two3", WFEW + "|any") + WJ("opt2 optfile", "text|nsdecl|notation", 0) + WJ("canon canonns meta notation copy map", "tour.*", 0)
     + WJ("canonns metaread", "text|tag|attval|atts2|ns.*|pi|comment|cdata|not.*|ent.*", 0, 0, 1) + WJ("canon metans", "text|tag|attval|atts2|ns.*|pi|comment|cdata|not.*|ent.*", 0, 0, 2) + WJ("notation copyns", WFEW, 0, 0, 4) + WJ("copyns read", WFEW, 0, 0, 5)
     + WJ("read stdin metaread canonread", ".*", 1, 0, 0, 1, but=WBIG + "|any") + WJ("map meta canon", "text|tag|u3|any", 1, 8 * 4 + 6, 0, 1)
     + sum([WJ("map read meta canonread copy two2" + (" stdin" if st in (2, 4, 6) else ""), "text|tag|prolog", 1, 8 * 4 + st) for st in (1, 2, 3, 4, 5, 6)], [])
     + WJ("copy copyns copyns2", ".*", 1, 0, 0, 0, 1, but=WBIG + "|xd.*|prolog|any|u.*")
     + WJ("ext extread pe peread metaext copyext stdinext standalone notations canon", ".*", 1, ext=True) + WJ("extread peread stdinext", ".*", 1, 0, 0, 1, ext=True)
     + WJ("ext extread metaext", ".*", 0, 0, 1, ext=True) + WJ("pe peread", ".*", 0, 0, 2, ext=True) + WJ("metaext stdinext", ".*", 0, 0, 4, ext=True)
     + sum([WJ("ext peread metaext", ".*", 1, 8 * k + st, ext=True) for k in (0, 1) for st in (1, 2, 3, 4, 5, 6)], []),
     WJ(" ".join(WALL), ".*", 2, but=WBIG + "|any|crlf") + WJ("opt2 optfile opt", WFEW) + WJ("canon canonns meta notation copy map", "tour.*", 1)
     + sum([WJ("canonns metaread notation copy", ".*", 0, 0, o, but=WBIG + "|any") for o in (1, 2, 4, 5)], []) + WJ("read stdin metaread canonread", ".*", 2, 0, 0, 1, but=WBIG + "|any|crlf") + WJ("map meta canon", ".*", 1, 8 * 4 + 6, 0, 1, but=WBIG + "|any")
     + sum([WJ("map read meta canonread copy two2 canonns notation" + (" stdin" if st in (2, 4, 6) else ""), ".*", 1, 8 * 4 + st, but=WBIG + "|any") for st in (1, 2, 3, 4, 5, 6)], []) + WJ("copy copyns copyns2", ".*", 2, 0, 0, 0, 1, but=WBIG + "|xd.*|prolog|any|u.*|crlf")
     + WJ("ext extread pe peread metaext copyext stdinext standalone notations canon", ".*", 2, ext=True) + sum([WJ("ext peread metaext stdinext", ".*", 0, 0, o, ext=True) for o in (1, 2, 4, 5)], []) + sum([WJ("ext extread pe peread metaext", ".*", 1, 8 * k + st, ext=True) for k in (0, 1, 2, 4) for st in (1, 2, 3, 4, 5, 6)], []),
     "2 free bytes; every template with one byte changed, inserted, cut or exchanged and in every state of the file.",
     assumptions=["the C library is replaced by an in-memory one (harness/src/vfs.rs): files, descriptors, mapping, standard streams, exit and the formats fprintf is used with; xmlwf's source is otherwise taken as it is, with libc's names resolved to it", "what the library reports (events, positions, error codes) is taken from the library itself, asked directly; the other properties are about that", "usage text on standard error is not compared"], tlimit=3000)

for _p in (PROPS["C24"],):
    for _k in ("quick", "thorough"):
        _p[_k] = list({j["name"]: j for j in _p[_k]}.values())

# ------------------------------------------------------------------ entities' parsers (harness/src/h_nest.rs)
GENX = "[^f].*"
NDEF = "gtext|gmark|gtail|gopen|gdecl|gver|genc|gencv|gcr|grec|gatt|gattref|gns|gns2|gdir|gundef|gbom|gu|gpi|stext|sent|sboth|sel|sdecl|senc|speext|sinc|sign|scond|scondn|scondx|satt|ssaY|ssaN|scr|snd|ptext|pent|prec|ptwice|pdtd|pundef|pcond|psaAtt"


def NX(entry, pat, *sets):
    r = [t for t in EXT if re.fullmatch(pat, t)]
    assert r, pat
    return [J("%s-%s-%s" % (entry, t, "_".join(map(str, p))), entry, [EXT.index(t)] + list(p)) for p in sets for t in r]


def more(i, bounds, quick, thorough=(), tbounds=None):
    p = PROPS[i]
    p["bounds"] = p["bounds"].rstrip(". ") + "; " + bounds + "."
    p["quick"] = p["quick"] + list(quick)
    if "thorough" in p:
        p["thorough"] = p["thorough"] + list(thorough)
        p["tbounds"] = p["tbounds"].rstrip(". ") + "; " + (tbounds or "parsers of external entities as quick") + "."


NE = [t for t in EXT if re.fullmatch(GENX, t)]
more("C01", "parsers of external entities: every text of the external-entity table (1 free byte) cut anywhere, fed byte by byte or cut through XML_GetBuffer with the buffer moved, the document whole, by bytes or moved as well; every template cut anywhere with the buffer moved",
     NX("h_nestcut", GENX, (1, 9, 1, 0), (1, 8, 2, 2), (1, 8, 3, 0), (1, 8, 0, 3)) + JT("h_split", ".*", 1, 0, 0, 9, 0, but="tour.*"),
     NX("h_nestcut", GENX, (2, 9, 1, 0), (1, 9, 1, 1), (1, 8, 3, 3), (2, 8, 2, 2)) + JT("h_split", ".*", 2, 0, 0, 9, 0, but=BIG), "parsers of external entities with 2 free bytes or with text and document both cut")
more("C09", "in parsers of external entities every event lies within the text, does not overlap the one before and its line and column are those of its index, the texts fed whole, cut or by bytes",
     NX("h_nestpos", GENX, (1, 9, 1, 0, 0, 0, 1), (1, 8, 2, 2, 0, 0, 1), (1, 8, 0, 0, 0, 0, 1)),
     NX("h_nestpos", GENX, (2, 9, 1, 0, 0, 0, 1), (1, 8, 2, 2, 0, 0, 3), (2, 8, 0, 0, 0, 0, 1)))
more("C27", "in parsers of external entities as well", NX("h_nestpos", GENX, (1, 8, 3, 0, 0, 0, 2), (1, 8, 2, 2, 0, 0, 2)), NX("h_nestpos", GENX, (2, 8, 3, 0, 0, 0, 2), (1, 9, 1, 1, 0, 0, 2)))
more("C14", "the default handler in parsers of external entities: the pieces and events of every text account for it exactly",
     NX("h_nestdef", NDEF, (1, 8, 0, 0, 0, 0, 0), (1, 8, 0, 0, 0, 0, 1), (1, 9, 1, 0, 0, 0, 0), (1, 9, 0, 1, 0, 0, 0), (1, 9, 2, 2, 1, 0, 1)),
     NX("h_nestdef", NDEF, (2, 8, 0, 0, 0, 0, 0), (2, 8, 0, 0, 0, 0, 1), (1, 9, 1, 0, 0, 0, 0), (1, 9, 0, 1, 0, 0, 0), (1, 9, 2, 2, 1, 0, 1)))
more("C10", "parsers of external entities stopped and resumed or aborted at any event or at every one, alone or with the document's parser; every template cut anywhere with the buffer moved while stopped",
     NX("h_nestsusp", GENX, (1, 8, 0, 0, 0, 0, 0), (1, 8, 0, 0, 0, 0, 1), (1, 8, 0, 0, 0, 0, 4), (1, 8, 0, 0, 0, 0, 5), (1, 9, 2, 2, 0, 0, 2), (1, 9, 2, 2, 0, 0, 3), (1, 8, 3, 0, 0, 0, 2)) + JT("h_susp", ".*", 1, 0, 0, 1, 3, but="tour.*") + JT("h_susp", "ent.*", 1, 0, 0, 0, 3),
     NX("h_nestsusp", GENX, (1, 8, 0, 0, 0, 0, 0), (1, 8, 0, 0, 0, 0, 1), (1, 8, 1, 0, 0, 0, 4), (1, 9, 0, 1, 0, 0, 2), (1, 8, 3, 0, 0, 0, 2)) + JT("h_susp", ".*", 1, 0, 0, 0, 3, but="tour.*"), "parsers of external entities also with either text cut")
XI = EXT.index
more("C11", "a parser that has run a document with external entities (at every point it was given up) reset and used for another one",
     NX("h_nestreset", GENX, (1, 8, 0, XI("sboth"), 0, 0, 0), (1, 8, 1, XI("sinc"), 0, 0, 0), (1, 8, 2, XI("ptext"), 0, 0, 0), (1, 9, 3, XI("gns"), 0, 0, 0), (1, 8, 6, XI("vdecl"), 0, 0, 0), (1, 8, 7, XI("vdecl"), 0, 0, 0)),
     NX("h_nestreset", GENX, *[(1, 8, k, XI(t), 0, 0, 0) for k in (0, 1, 2, 3, 6, 7) for t in ("gtext", "sboth", "ptext", "vdecl")]))
more("C12", "every single allocation failing, or all from one on, while documents with external entities are parsed",
     NX("h_nestoom", GENX, (1, 8, 0, 0, 0, 0, 320), (1, 9, 2, 0, 0, 0, 321)), NX("h_nestoom", GENX, (2, 8, 0, 0, 0, 0, 400), (1, 9, 2, 0, 0, 0, 401)))
more("C15", "documents with external entities with any one kind of handler alone or missing",
     NX("h_ext", ".*", (1, 520, 0, 0, 0, 0, 1), (1, 521, 0, 0, 0, 0, 1), (0, 520, 0, 0, 1, 0, 1)), NX("h_ext", ".*", (1, 520, 0, 0, 0, 0, 1), (1, 521, 0, 0, 0, 0, 1), (0, 520, 0, 0, 1, 0, 1), (2, 520, 0, 0, 0, 0, 1)))

NOT_APPLICABLE = {}
HOOK_COMMITS = ["f59645f"]
