"""What each property's check runs: TLC models, behaviour generators, recorders."""

CHECKS = {}
NOT_APPLICABLE = {}
TRUST = "Trusts TLC, the harness's independent PDF builder and strict reader, and the Go toolchain."

# --------------------------------------------------------------- P01, P03
_rev_model = dict(module="Revisions", invs=["TypeOK", "Refinement", "FreedIsGone", "GenCountsFrees", "PackedIsGenZero"],
                  props=["HistoryStable"])


def _rev(seed_consts):
    c = dict(Kinds={"table", "xstm"}, NumObjs=2, MaxRevs=3, MaxEdits=2, Roots={1}, Infos={True})
    if seed_consts.get("MaxRevs", 3) > 3:
        c["Kinds"] = {"table", "xstm", "hybrid"}
    c.update(seed_consts)
    return c


_rev_quick = dict(
    models=[dict(_rev_model, consts=_rev(dict(Roots={1, 2}, Kinds={"table", "xstm", "hybrid"})))],
    gens=[dict(name="bfs", module="GenRevisions", consts=_rev({})),
          dict(name="sim", module="GenRevisions", spec="SimSpec", sim=dict(num=400, depth=8),
               consts=_rev(dict(NumObjs=6, MaxRevs=6, MaxEdits=4, Roots={1, 2}, Infos={True, False}))),
          dict(name="long", module="GenRevisions", spec="SimSpec", sim=dict(num=40, depth=17),
               consts=_rev(dict(NumObjs=4, MaxRevs=15, MaxEdits=3, Roots={1, 2}, Infos={True, False})))])
_rev_thorough = dict(
    models=[dict(_rev_model, consts=_rev(dict(Roots={1, 2}, Infos={True, False}))),
            dict(_rev_model, consts=_rev(dict(NumObjs=3, MaxRevs=3, MaxEdits=2)))],
    gens=[dict(name="bfs", module="GenRevisions", consts=_rev({})),
          dict(name="bfs3", module="GenRevisions", consts=_rev(dict(NumObjs=3, MaxRevs=3, MaxEdits=1, Kinds={"table", "xstm", "hybrid"}))),
          dict(name="sim", module="GenRevisions", spec="SimSpec", sim=dict(num=4000, depth=10),
               consts=_rev(dict(NumObjs=6, MaxRevs=8, MaxEdits=4, Roots={1, 2}, Infos={True, False}))),
          dict(name="long", module="GenRevisions", spec="SimSpec", sim=dict(num=400, depth=40),
               consts=_rev(dict(NumObjs=4, MaxRevs=36, MaxEdits=3, Roots={1, 2}, Infos={True, False})))])
CHECKS["P01"] = dict(
    technique="TLA+ spec of revision histories model-checked by TLC; generated histories replayed into the parser",
    note="Refinement (newest-first lookup = map of current versions) is model-checked exhaustively to the stated bounds; every history to a bound and seeded random deeper ones are serialised in random legal layouts and read back by the real parser. " + TRUST,
    quick=_rev_quick, thorough=_rev_thorough, assumptions=[
    "the harness's own PDF builder and strict reader implement ISO 32000-1 7.5 (they are checked against each other on every file)"])
CHECKS["P03"] = dict(
    technique="TLA+ spec of revision histories model-checked by TLC; generated histories replayed into the byte-perfect parser",
    note="Same specification and histories as P01, replayed into ParseDocument; every byte range is compared with what the builder wrote. " + TRUST,
    quick=_rev_quick, thorough=_rev_thorough, assumptions=CHECKS["P01"]["assumptions"])

# --------------------------------------------------------------- P02
_w_props = ["ReadBack", "Pure"]
CHECKS["P02"] = dict(
    technique="TLA+ spec of writer sessions and file layout checked by TLC; generated sessions replayed into PDFWriter",
    note="Read-back through the specified file layout is model-checked; every session to a bound and seeded random longer ones run on the real writer, whose output an independent strict reader and the library's reader must resolve to the session. " + TRUST,
    quick=dict(
        models=[dict(module="WriterSession", invs=["FreshNumbers"], props=_w_props, consts=dict(MaxNum=2, MaxOps=5))],
        gens=[dict(name="bfs", module="GenWriterSession", spec="GSpec", consts=dict(MaxNum=2, MaxOps=4)),
              dict(name="sim", module="GenWriterSession", spec="SSpec", sim=dict(num=1500, depth=25), consts=dict(MaxNum=8, MaxOps=20))]),
    thorough=dict(
        models=[dict(module="WriterSession", invs=["FreshNumbers"], props=_w_props, consts=dict(MaxNum=3, MaxOps=6), workers=8)],
        gens=[dict(name="bfs", module="GenWriterSession", spec="GSpec", consts=dict(MaxNum=3, MaxOps=5)),
              dict(name="sim", module="GenWriterSession", spec="SSpec", sim=dict(num=15000, depth=45), consts=dict(MaxNum=12, MaxOps=40))]),
    assumptions=["dictionary values are passed as the writer's API expects them: names with a leading slash, references as 'N G R', strings as bytes"])

# --------------------------------------------------------------- P06
_pt_invs = ["Refines", "CountOK", "TreeOK", "OnceEach", "NeverEmpty"]
CHECKS["P06"] = dict(
    technique="TLA+ refinement of page-list edits by page-tree edits, checked by TLC; generated trees and edit histories replayed",
    note="Refinement of list edits by tree edits is model-checked over all small trees; generated trees and histories are replayed into the manipulator, the rebuilt document is read by an independent strict reader after the edits. " + TRUST,
    quick=dict(
        models=[dict(module="PageTree", invs=_pt_invs, consts=dict(MaxLeaves=3, MaxInner=2, MaxEdits=2, Rots="@{1, 90}"))],
        gens=[dict(name="bfs", module="GenPageTree", spec="GSpec", consts=dict(MaxLeaves=3, MaxInner=1, MaxEdits=1, Rots="@{1, 90}")),
              dict(name="sim", module="GenPageTree", spec="SSpec", sim=dict(num=1200, depth=40), consts=dict(MaxLeaves=9, MaxInner=4, MaxEdits=6, Rots="@{1, 0, 90, 270}"))]),
    thorough=dict(
        models=[dict(module="PageTree", invs=_pt_invs, consts=dict(MaxLeaves=4, MaxInner=2, MaxEdits=2, Rots="@{1, 90}"), workers=8)],
        gens=[dict(name="bfs", module="GenPageTree", spec="GSpec", consts=dict(MaxLeaves=3, MaxInner=2, MaxEdits=2, Rots="@{1, 90}")),
              dict(name="sim", module="GenPageTree", spec="SSpec", sim=dict(num=15000, depth=60), consts=dict(MaxLeaves=14, MaxInner=6, MaxEdits=12, Rots="@{1, 0, 90, 270}"))]),
    assumptions=["inserted pages carry their inheritable attributes themselves, so their place in the tree does not matter"])

# --------------------------------------------------------------- P07
CHECKS["P07"] = dict(
    technique="TLA+ spec of page-rooted graph copying checked by TLC; generated extract/split/merge histories replayed",
    note="The copying worklist is model-checked over all small object graphs and selections (closed, faithful, links kept); generated histories over random page trees run on the real functions, whose results an independent strict reader walks in step with their sources. " + TRUST,
    quick=dict(
        models=[dict(module="PageCopy", invs=["Inv"], props=["Result"], consts=dict(Srcs={1, 2}, NumPages=2, NumObjs=1, Fan=1, MaxOut=2, MaxDocs=3)),
                dict(module="PageCopy", invs=["Inv"], props=["Result"], consts=dict(Srcs={1}, NumPages=2, NumObjs=1, Fan=2, MaxOut=2, MaxDocs=2))],
        gens=[dict(name="bfs", module="GenPageCopy", spec="GSpec", consts=dict(MaxSrcs=2, MaxLeaves=3, MaxInner=1, MaxOps=1, MaxPages=3)),
              dict(name="sim", module="GenPageCopy", spec="SSpec", sim=dict(num=1000, depth=12), consts=dict(MaxSrcs=3, MaxLeaves=8, MaxInner=4, MaxOps=4, MaxPages=6))]),
    thorough=dict(
        models=[dict(module="PageCopy", invs=["Inv"], props=["Result"], consts=dict(Srcs={1, 2}, NumPages=2, NumObjs=1, Fan=1, MaxOut=2, MaxDocs=4), workers=8),
                dict(module="PageCopy", invs=["Inv"], props=["Result"], consts=dict(Srcs={1}, NumPages=2, NumObjs=2, Fan=2, MaxOut=2, MaxDocs=2), workers=8)],
        gens=[dict(name="bfs", module="GenPageCopy", spec="GSpec", consts=dict(MaxSrcs=2, MaxLeaves=3, MaxInner=1, MaxOps=1, MaxPages=3)),
              dict(name="sim", module="GenPageCopy", spec="SSpec", sim=dict(num=10000, depth=14), consts=dict(MaxSrcs=4, MaxLeaves=14, MaxInner=6, MaxOps=6, MaxPages=12))]),
    assumptions=["a link to a page that is not selected may be dropped; all else a page refers to is part of it"])

# --------------------------------------------------------------- P04
_pw_invs = ["Opens", "SameKey", "EmptyOpens"]
_h = {"R2", "R3v1", "R3", "R4rc4", "R4aes", "R5", "R6"}
_pws = {"e", "a", "b", "c", "aP", "p", "l", "lx", "m", "mx", "m1", "u"}
CHECKS["P04"] = dict(
    technique="TLA+ spec of the standard security handler with symbolic cryptography, checked by TLC; generated document lives replayed",
    note="That the algorithms accept exactly the right passwords is model-checked over all pairs of the password universe; documents with every handler and password pair, and their updates and rewrites, are built by an independent implementation (or the library's writer) and tried with the whole universe. " + TRUST,
    quick=dict(
        models=[dict(module="Passwords", invs=_pw_invs, consts=dict(Handlers=_h, Pws=_pws, MaxSteps=1))],
        gens=[dict(name="bfs", module="GenPasswords", spec="GSpec", consts=dict(Handlers=_h, Pws={"e", "a", "b", "l"}, MaxSteps=1)),
              dict(name="sim", module="GenPasswords", spec="SSpec", sim=dict(num=350, depth=6), consts=dict(Handlers=_h, Pws=_pws, MaxSteps=3))]),
    thorough=dict(
        models=[dict(module="Passwords", invs=_pw_invs, consts=dict(Handlers=_h, Pws=_pws, MaxSteps=3))],
        gens=[dict(name="bfs", module="GenPasswords", spec="GSpec", consts=dict(Handlers=_h, Pws=_pws, MaxSteps=0)),
              dict(name="bfs1", module="GenPasswords", spec="GSpec", consts=dict(Handlers=_h, Pws={"e", "a", "aP", "b"}, MaxSteps=1)),
              dict(name="sim", module="GenPasswords", spec="SSpec", sim=dict(num=4000, depth=8), consts=dict(Handlers=_h, Pws=_pws, MaxSteps=5))]),
    assumptions=["the harness's independent security handler implements ISO 32000 7.6", "passwords are taken as bytes (no SASLprep)"])

# --------------------------------------------------------------- P05
_cf_invs = ["ReadBack", "KeysApart", "Hidden"]
CHECKS["P05"] = dict(
    technique="TLA+ spec of crypt filters, object keys and packing checked by TLC; generated encrypted documents replayed",
    note="Which method and key covers what, and that reading inverts it over redefinition, rewriting and extraction, is model-checked for all configurations; generated histories are built by an independent security handler and the library's writer and read by both. " + TRUST,
    quick=dict(
        models=[dict(module="CryptFilters", invs=_cf_invs, consts=dict(Configs="<- SomeConfigs", NumObjs=2, MaxGen=1, MaxSteps=3), spec="Spec")],
        gens=[dict(name="bfs", module="GenCryptFilters", spec="GSpec", consts=dict(Configs="<- AllConfigs", NumObjs=1, MaxGen=1, MaxSteps=2)),
              dict(name="sim", module="GenCryptFilters", spec="SSpec", sim=dict(num=1200, depth=14), consts=dict(Configs="<- AllConfigs", NumObjs=5, MaxGen=3, MaxSteps=11))]),
    thorough=dict(
        models=[dict(module="CryptFilters", invs=_cf_invs, consts=dict(Configs="<- AllConfigs", NumObjs=2, MaxGen=1, MaxSteps=3), workers=8)],
        gens=[dict(name="bfs", module="GenCryptFilters", spec="GSpec", consts=dict(Configs="<- AllConfigs", NumObjs=1, MaxGen=1, MaxSteps=2)),
              dict(name="sim", module="GenCryptFilters", spec="SSpec", sim=dict(num=12000, depth=26), consts=dict(Configs="<- AllConfigs", NumObjs=8, MaxGen=3, MaxSteps=22))]),
    assumptions=["the harness's independent security handler implements ISO 32000 7.6"])

# --------------------------------------------------------------- P16
_ec = ["INVALID_PDF", "MALFORMED_PDF", "UNSUPPORTED_PDF", "OBJECT_NOT_FOUND", "INVALID_OBJECT", "STREAM_ERROR", "XREF_ERROR",
       "ENCRYPTED", "DECRYPTION_FAILED", "WRONG_PASSWORD", "UNSUPPORTED_CRYPTO", "NO_FORMS", "INVALID_FORM", "FIELD_NOT_FOUND",
       "INVALID_VALUE", "VALIDATION_ERROR", "NO_CONTENT", "EXTRACTION_ERROR", "FONT_ERROR", "IMAGE_ERROR", "WRITE_ERROR",
       "INVALID_INPUT", "IO_ERROR"]
_lc = {"INVALID_PDF", "OBJECT_NOT_FOUND", "NO_FORMS", "INVALID_INPUT"}
_ec_invs, _ew_invs, _ew_props = ["CodeKept", "MatchKept", "CodeMatches"], ["Refines", "Ordered"], ["GivenStay", "SilentWhenOff"]


def _p16(codes, esteps, wops, snum, wnum, depth):
    return dict(
        models=[dict(module="ErrorChains", invs=_ec_invs, props=["Monotone"], consts=dict(Codes={"ENCRYPTED", "IO_ERROR"}, LibCodes=set(), MaxSteps=esteps + 1)),
                dict(module="Warnings", invs=_ew_invs, props=_ew_props, consts=dict(Levels={"i", "w"}, WCodes={"", "x"}, MaxOps=wops))],
        gens=[dict(name="ebfs", module="GenErrorChains", spec="GSpec", consts=dict(Codes=codes, LibCodes=_lc, MaxSteps=esteps - 1)),
              dict(name="eall", module="GenErrorChains", spec="GSpec", consts=dict(Codes=set(_ec), LibCodes=_lc, MaxSteps=2)),
              dict(name="esim", module="GenErrorChains", spec="SSpec", sim=dict(num=snum, depth=depth), consts=dict(Codes=set(_ec), LibCodes=_lc, MaxSteps=depth - 2)),
              dict(name="wbfs", module="GenWarnings", spec="GSpec", consts=dict(Levels={"i", "e"}, WCodes={"", "x"}, MaxOps=wops - 1)),
              dict(name="wsim", module="GenWarnings", spec="SSpec", sim=dict(num=wnum, depth=depth * 3), consts=dict(Levels={"i", "w", "e"}, WCodes={"", "x", "y"}, MaxOps=depth * 3 - 2))],
        records=[dict(module="WarningsLin", recorder="warnings", crash=True)])


_pb_invs = ["Nested", "Resolved", "Shown", "Ordered", "Logged"]
_pb = dict(MaxPages=1, MaxDepth=2, MaxImages=1, MaxWrites=1, NumStd=1, NumEmb=0, NumTexts=1, NumSizes=1)
_pb_text = dict(_pb, Alphabet='@{"q", "Q", "BT", "ET", "Tf", "Tj", "T*"}', MaxImages=0)
_pb_path = dict(_pb, Alphabet='@{"q", "Q", "m", "l", "S", "re", "BT", "ET"}', MaxImages=0)
_pb_res = dict(_pb, Alphabet='@{"q", "BT", "Tf", "Tj", "Do", "mark"}', MaxPages=2, NumEmb=1)
_pb_s = dict(Alphabet="<- AllOps", MaxPages=4, MaxDepth=3, MaxImages=4, MaxWrites=3, NumStd=4, NumEmb=2, NumTexts=8, NumSizes=4)
CHECKS["P18"] = dict(
    technique="TLA+ spec of drawing sessions (pages, resources, operators, watermarks), checked by TLC; generated sessions replayed on the page builder",
    note="That operators nest, names stand for what was meant, text is shown in the font in force and pages do not touch each other is model-checked on short sessions over three alphabets; random long sessions over every method are replayed, each written document read back strictly (operators, fonts with widths and ToUnicode, image samples, opacity) and through content extraction. " + TRUST,
    quick=dict(
        models=[dict(module="PageBuild", invs=_pb_invs, props=["Frame"], consts=dict(_pb_text, MaxOps=8)),
                dict(module="PageBuild", invs=_pb_invs, props=["Frame"], consts=dict(_pb_path, MaxOps=7)),
                dict(module="PageBuild", invs=_pb_invs, props=["Frame"], consts=dict(_pb_res, MaxOps=5))],
        gens=[dict(name="sim", module="GenPageBuild", spec="SSpec", invs=["SEmit"], sim=dict(num=2500, depth=210), consts=dict(_pb_s, MaxOps=180))]),
    thorough=dict(
        models=[dict(module="PageBuild", invs=_pb_invs, props=["Frame"], consts=dict(_pb_text, MaxOps=10), workers=8),
                dict(module="PageBuild", invs=_pb_invs, props=["Frame"], consts=dict(_pb_path, MaxOps=10), workers=8),
                dict(module="PageBuild", invs=_pb_invs, props=["Frame"], consts=dict(_pb_res, MaxOps=7), workers=8)],
        gens=[dict(name="sim", module="GenPageBuild", spec="SSpec", invs=["SEmit"], sim=dict(num=15000, depth=210), consts=dict(_pb_s, MaxOps=180)),
              dict(name="long", module="GenPageBuild", spec="SSpec", invs=_pb_invs + ["SEmit"], sim=dict(num=1500, depth=450), consts=dict(_pb_s, MaxPages=8, MaxOps=400, MaxDepth=8, MaxImages=8, MaxWrites=5))]),
    assumptions=["texts are of the characters of WinAnsiEncoding; others are written as ?", "callers use the resource names they are given", "numbers are written with four decimals"])

_fv_invs = ["Exact", "Named", "Possible"]
_fv = dict(MaxNodes=2, MaxQs=0, MaxSteps=2, MaxText=2, NumOpts=1, Unknown=1, Kinds='@{"group", "text", "combo", "multi"}')
_fv_q = dict(_fv, MaxNodes=1, MaxQs=1, Kinds='@{"text"}')
_fv_s = dict(MaxNodes=12, MaxQs=6, MaxSteps=40, MaxText=6, NumOpts=3, Unknown=2, Kinds='@{"group", "text", "combo", "list", "edit", "multi", "check", "radio", "radioopt", "sig"}')
CHECKS["P19"] = dict(
    technique="TLA+ spec of forms, rules and data, checked by TLC; generated forms and data histories replayed on the validators",
    note="That exactly the offending names are reported, independently of each other, is model-checked on small forms; every small form with every one-entry history and random large forms are built into documents (any layout, encrypted) and validated through every entry point. " + TRUST,
    quick=dict(
        models=[dict(module="FormValidation", invs=_fv_invs, props=["Local"], consts=_fv),
                dict(module="FormValidation", invs=_fv_invs, props=["Local"], consts=_fv_q)],
        gens=[dict(name="bfs", module="GenFormValidation", spec="BSpec", consts=dict(_fv_s, MaxNodes=2, MaxQs=0, MaxSteps=1, MaxText=2, NumOpts=2, Unknown=1)),
              dict(name="sim", module="GenFormValidation", spec="SSpec", invs=_fv_invs + ["Emit"], sim=dict(num=1500, depth=70), consts=_fv_s)]),
    thorough=dict(
        models=[dict(module="FormValidation", invs=_fv_invs, props=["Local"], consts=dict(_fv, Kinds='@{"group", "text", "list"}', MaxSteps=3), workers=8),
                dict(module="FormValidation", invs=_fv_invs, props=["Local"], consts=dict(_fv, NumOpts=2, Kinds='@{"group", "text", "radioopt", "multi"}'), workers=8),
                dict(module="FormValidation", invs=_fv_invs, props=["Local"], consts=dict(_fv_q, MaxSteps=3), workers=8)],
        gens=[dict(name="bfs", module="GenFormValidation", spec="BSpec", consts=dict(_fv_s, MaxNodes=2, MaxQs=0, MaxSteps=1, MaxText=3, NumOpts=2, Unknown=1)),
              dict(name="sim", module="GenFormValidation", spec="SSpec", invs=_fv_invs + ["Emit"], sim=dict(num=15000, depth=120), consts=dict(_fv_s, MaxNodes=30, MaxQs=12, MaxSteps=70))]),
    assumptions=["options of a schema's questions, custom scripts, states of radio buttons without options and several values for a single-choice field are not judged", "a name that is no field's full name stands for the field with that partial name"])

_xf = dict(MaxNodes=3, MaxVal=1, MaxAside=1, Known="<- KnownSmall", Other={"postamble"}, MaxOps=1)
_xf_invs = ["Spliced", "Orderly", "LastWins"]
_xf_s = dict(MaxNodes=40, MaxVal=8, MaxAside=3, Known="<- KnownAll", Other={"preamble", "form", "postamble"}, MaxOps=6)
CHECKS["P15"] = dict(
    technique="TLA+ spec of XFA packets, data trees and a scanner that fills their text, checked by TLC; generated forms and histories replayed",
    note="That a scanner with a stack of open elements writes exactly the text of the filled tree, and that steps keep what they are not about, is model-checked on small forms; every small form with every step and random large ones with histories of fills, rebuilds and builds are replayed on documents in any layout (encrypted, filtered, indirect) and text written in many ways. " + TRUST,
    quick=dict(
        models=[dict(module="XFA", invs=_xf_invs, props=["Kept"], consts=dict(_xf, Known="<- KnownData", Other=set()), workers=8),
                dict(module="XFA", invs=_xf_invs, props=["Kept"], consts=dict(_xf, MaxNodes=1, MaxAside=0, MaxOps=3), workers=8)],
        gens=[dict(name="bfs", module="GenXFA", spec="BSpec", consts=dict(_xf, MaxNodes=2)),
              dict(name="sim", module="GenXFA", spec="SSpec", sim=dict(num=2500, depth=90), consts=_xf_s)]),
    thorough=dict(
        models=[dict(module="XFA", invs=_xf_invs, props=["Kept"], consts=dict(_xf, Known="<- KnownData", Other=set(), MaxNodes=4), workers=8),
                dict(module="XFA", invs=_xf_invs, props=["Kept"], consts=dict(_xf, MaxNodes=2, MaxAside=0, MaxOps=2), workers=8)],
        gens=[dict(name="bfs", module="GenXFA", spec="BSpec", consts=dict(_xf, MaxNodes=2, MaxVal=2)),
              dict(name="sim", module="GenXFA", spec="SSpec", sim=dict(num=25000, depth=120), consts=dict(_xf_s, MaxOps=12))]),
    assumptions=["fields are addressed as the library does, by field elements with name attributes, which are unique in the data", "forms kept as one stream, empty packets and groups named like standard elements are not modelled"])

_cm_invs = ["Exact", "Patch", "Complete", "Equivalence", "Mirror", "Monotone"]
_cm = dict(Kinds={"text"}, NW=2, NP=2, NS=1, NJ=1, Cases="@{0}", MaxPages=1, MaxEls=3, MaxEdits=2, MaxMarks=0, NMeta=0, NFields=0, NVals=1, Options="<- FewOpts")
_cm_d = dict(_cm, Kinds={"image", "note"}, NW=1, NJ=0, MaxPages=2, MaxMarks=1, NMeta=4, NFields=1)
_cm_s = dict(Kinds={"text", "shape", "image", "note"}, NW=1, NP=2, NS=2, NJ=0, Cases="@{0, 1}", MaxPages=2, MaxEls=3, MaxEdits=1, MaxMarks=1, NMeta=4, NFields=1, NVals=2, Options="<- FewOpts", MaxRounds=1)
_cm_r = dict(_cm_s, NW=4, NP=4, NS=3, NJ=2, MaxPages=4, MaxEls=12, MaxMarks=4, NMeta=9, NFields=4, NVals=3, MaxRounds=4)
CHECKS["P13"] = dict(
    technique="TLA+ spec of documents, edits and comparers, checked by TLC; generated pairs of documents compared by the library",
    note="That any greedy matching reports exactly the differences, as a patch and a mirror image, is model-checked on small documents under several options; every small document with every single edit and random large ones are built in random layouts (encrypted, re-ordered, re-encoded) and compared both ways. " + TRUST,
    quick=dict(
        models=[dict(module="Compare", invs=_cm_invs, consts=_cm, workers=8), dict(module="Compare", invs=_cm_invs, consts=_cm_d, workers=8)],
        gens=[dict(name="bfs", module="GenCompare", spec="BSpec", consts=dict(_cm_s, NS=1)),
              dict(name="moves", module="GenCompare", spec="BSpec", consts=dict(_cm_s, NS=1, NMeta=0, NFields=0, MaxPages=1, Options="<- MoveOpts")),
              dict(name="sim", module="GenCompare", spec="SSpec", sim=dict(num=600, depth=80), consts=_cm_r)]),
    thorough=dict(
        models=[dict(module="Compare", invs=_cm_invs, consts=dict(_cm, NW=1, Cases="@{0, 1}"), workers=8),
                dict(module="Compare", invs=_cm_invs, consts=dict(_cm, Kinds={"text", "shape"}, NW=1, Options="<- SomeOpts"), workers=8),
                dict(module="Compare", invs=_cm_invs, consts=_cm_d, workers=8)],
        gens=[dict(name="bfs", module="GenCompare", spec="BSpec", consts=_cm_s),
              dict(name="bfs2", module="GenCompare", spec="BSpec", consts=dict(_cm_s, NS=1, NJ=1, MaxPages=1, Options="<- SomeOpts")),
              dict(name="sim", module="GenCompare", spec="SSpec", sim=dict(num=6000, depth=140), consts=dict(_cm_r, MaxEls=25, MaxPages=6, MaxRounds=6))]),
    assumptions=["text colour, drawing order, pages links lead to and fonts replaced under the same resource name are not judged"])

CHECKS["P16"] = dict(
    technique="TLA+ specs of error chains and of the warning collector checked by TLC; replay, and linearizability of recorded concurrent histories",
    note="That a walk over any chain finds the class is model-checked, and every chain shape to a bound and random deeper ones are built from real errors; collector histories are replayed, and histories recorded from several goroutines are checked for linearizability against the specification by TLC. " + TRUST,
    quick=_p16({"WRONG_PASSWORD", "FIELD_NOT_FOUND"}, 5, 5, 3000, 1500, 14),
    thorough=_p16({"WRONG_PASSWORD", "FIELD_NOT_FOUND"}, 6, 6, 30000, 15000, 24),
    assumptions=["goroutine interleavings are those the scheduler produced while recording"])

# --------------------------------------------------------------- P12
_rb_invs = ["Bounded", "Once", "Contained", "Again", "Reached"]
_rb = dict(Pages=2, MaxDamage=1, MaxReads=2)
def _rb_gens(values, sweeps, streams, byts, formats, mixed, hits=4):
    g = lambda name, mode, sites: dict(name=name, module="GenRobust", spec="GenSpec", consts=dict(_rb, Mode=mode, Sites=sites, MaxHits=1))
    return [g("values", "values", values), g("sweeps", "sweeps", sweeps), g("streams", "streams", streams), g("bytes", "bytes", byts), g("shapes", "shapes", 1), g("formats", "formats", formats),
            dict(name="mixed", module="GenRobust", spec="GenSpec", sim=dict(num=mixed, depth=hits + 1), consts=dict(_rb, Mode="mixed", Sites=1, MaxHits=hits))]
CHECKS["P12"] = dict(
    technique="TLA+ spec of readings over damaged document graphs, checked by TLC; generated damage plans carried out on documents and data",
    note="That a walk that remembers where it has been ends, does bounded work and is affected only by the pieces it reads is model-checked for every single (thorough: double) redirected reference or spoilt piece; every piece damaged in every way, every hard shape and random mixtures are carried out on real documents, and every call there is on documents is made in a process of its own that watches processor time, memory and its own end. " + TRUST,
    quick=dict(models=[dict(module="Robust", invs=_rb_invs, props=["Ends"], consts=dict(_rb, Pages=1), workers=8)],
               gens=_rb_gens(1, 4, 3, 3, 3, 300)),
    thorough=dict(models=[dict(module="Robust", invs=_rb_invs, props=["Ends"], consts=_rb, workers=8),
                          dict(module="Robust", invs=_rb_invs, consts=dict(_rb, Pages=1, MaxDamage=2, MaxReads=1), workers=8)],
                  gens=_rb_gens(6, 8, 20, 40, 25, 6000, hits=6)),
    assumptions=["a call may use 25 s of processor time and 3 GB of memory; data that legitimately unfolds to more is not generated",
                 "what is read from damaged pieces is not judged, only that every call ends and says the same again"])

# --------------------------------------------------------------- P17
_pf_invs = ["Walked", "SoFar", "Carried", "UsedOnce"]
_pf_small = dict(Inh={"Resources"}, Own={"TrimBox"}, Vals="@{1, 2}", Tables="<- SmallTables", Kinds={"link", "null"}, Silent={"null"})
_pf_kinds = {"link", "text", "mark", "shape", "null", "missing", "notdict", "nosubtype"}
_pf_all = dict(Inh={"Resources", "MediaBox", "CropBox", "Rotate"}, Own={"BleedBox", "TrimBox", "ArtBox"}, Tables="<- SmallTables", Kinds=_pf_kinds, Silent={"null", "missing", "notdict", "nosubtype"})
CHECKS["P17"] = dict(
    technique="TLA+ spec of page attributes, notes and resources in a page tree, checked by TLC; generated documents replayed into extraction",
    note="That one walk carrying inherited values along gives what the nearest node says, and that a change concerns only the pages below, is model-checked; every small and random big trees are written as documents in every layout, encrypted or not, and read back through every way to extract pages, annotations, resources, images and directories. " + TRUST,
    quick=dict(models=[dict(module="PageFacts", invs=_pf_invs, props=["Local"], consts=dict(_pf_small, MaxNodes=3, MaxSets=2, MaxNotes=0), workers=8),
                       dict(module="PageFacts", invs=_pf_invs, props=["Local", "Ends"], consts=dict(_pf_small, MaxNodes=2, MaxSets=2, MaxNotes=1), workers=4)],
               gens=[dict(name="bfs", module="GenPageFacts", spec="BSpec", invs=["BEmit"], consts=dict(_pf_small, MaxNodes=3, MaxSets=1, MaxNotes=0)),
                     dict(name="sim", module="GenPageFacts", spec="SSpec", invs=["SEmit"], sim=dict(num=3000, depth=60), consts=dict(_pf_all, Vals="@{1, 2, 3}", MaxNodes=9, MaxSets=20, MaxNotes=3))]),
    thorough=dict(models=[dict(module="PageFacts", invs=_pf_invs, props=["Local"], consts=dict(_pf_small, MaxNodes=3, MaxSets=3, MaxNotes=0), workers=8),
                          dict(module="PageFacts", invs=_pf_invs, props=["Local", "Ends"], consts=dict(_pf_small, MaxNodes=2, MaxSets=3, MaxNotes=2), workers=8)],
                  gens=[dict(name="bfs", module="GenPageFacts", spec="BSpec", invs=["BEmit"], consts=dict(_pf_small, MaxNodes=3, MaxSets=2, MaxNotes=0)),
                        dict(name="sim", module="GenPageFacts", spec="SSpec", invs=["SEmit"], sim=dict(num=40000, depth=120), consts=dict(_pf_all, Vals="@{1, 2, 3, 4, 5}", MaxNodes=20, MaxSets=40, MaxNotes=4))]),
    assumptions=["the order of fonts and images in the document's lists is free", "what the library says of a font's family without /FontFamily is not judged"])

# --------------------------------------------------------------- P20
_xs_invs = ["Learnt", "OneValue", "Survives"]
_xs_kinds = {"config", "localeSet", "connectionSet", "stylesheet"}
_xs_all = {"word", "marks", "space", "wide", "number", "bool", "lines"}
CHECKS["P20"] = dict(
    technique="TLA+ specs of the XFA template and settings packets checked by TLC; generated packets replayed into reading and writing",
    note="That what is learnt element by element is what the whole packet tells, and that a packet written from the facts tells the same, is model-checked; every small and random big packets are written as XML in many spellings, read by the library, written by it and read again, and made from the facts alone. " + TRUST,
    quick=dict(models=[dict(module="XFASettings", invs=_xs_invs, consts=dict(Kinds=_xs_kinds, MaxNodes=3, MaxUses=2, Classes={"word"}), workers=8),
                       dict(module="XFATemplate", invs=_xs_invs, consts=dict(MaxNodes=3, MaxUses=2, MaxFields=2, Classes={"word"}), workers=8)],
               gens=[dict(name="bfs", module="GenXFASettings", spec="BSpec", invs=["BEmit"], consts=dict(Kinds=_xs_kinds, MaxNodes=3, MaxUses=2, Classes={"word"})),
                     dict(name="forms", module="GenXFATemplate", spec="BSpec", invs=["BEmit"], consts=dict(MaxNodes=3, MaxUses=2, MaxFields=1, Classes={"word"})),
                     dict(name="sim", module="GenXFASettings", spec="SSpec", invs=["SEmit"], sim=dict(num=3000, depth=120), consts=dict(Kinds=_xs_kinds, MaxNodes=40, MaxUses=80, Classes=_xs_all)),
                     dict(name="fsim", module="GenXFATemplate", spec="SSpec", invs=["SEmit"], sim=dict(num=3000, depth=140), consts=dict(MaxNodes=60, MaxUses=80, MaxFields=12, Classes=_xs_all))]),
    thorough=dict(models=[dict(module="XFASettings", invs=_xs_invs, consts=dict(Kinds=_xs_kinds, MaxNodes=4, MaxUses=3, Classes={"word"}), workers=8),
                          dict(module="XFATemplate", invs=_xs_invs, consts=dict(MaxNodes=4, MaxUses=3, MaxFields=2, Classes={"word"}), workers=8)],
                  gens=[dict(name="bfs", module="GenXFASettings", spec="BSpec", invs=["BEmit"], consts=dict(Kinds=_xs_kinds, MaxNodes=4, MaxUses=2, Classes={"word"})),
                        dict(name="forms", module="GenXFATemplate", spec="BSpec", invs=["BEmit"], consts=dict(MaxNodes=4, MaxUses=2, MaxFields=2, Classes={"word"})),
                        dict(name="sim", module="GenXFASettings", spec="SSpec", invs=["SEmit"], sim=dict(num=15000, depth=200), consts=dict(Kinds=_xs_kinds, MaxNodes=80, MaxUses=140, Classes=_xs_all)),
                        dict(name="fsim", module="GenXFATemplate", spec="SSpec", invs=["SEmit"], sim=dict(num=12000, depth=240), consts=dict(MaxNodes=120, MaxUses=160, MaxFields=24, Classes=_xs_all))]),
    assumptions=["conditions, priorities and descriptions of rules and which option is chosen are not judged", "space at either end of a text is not told"])

# --------------------------------------------------------------- P11
_f_invs = ["RoundTrip", "Growing"]
_dm = {"none", "cut", "flip", "insert", "drop"}
CHECKS["P11"] = dict(
    technique="TLA+ machines of the stream filters checked by TLC; generated data, filter chains and encoder choices replayed",
    note="That the decoders invert every choice an encoder may make, and give a prefix on a cut, is model-checked on scaled-down alphabets; generated data is encoded by independent encoders in every way, also as object and cross-reference streams, and decoded by the library. " + TRUST,
    quick=dict(
        models=[dict(module="Filters", invs=_f_invs, consts=dict(Codecs={"hex", "b85", "rl"}, MaxLen=4, MaxWs=2, RowLen=2, Pixels="@{1}")),
                dict(module="Filters", invs=_f_invs, consts=dict(Codecs={"png"}, MaxLen=4, MaxWs=0, RowLen=2, Pixels="@{1, 2}"))],
        gens=[dict(name="bfs", module="GenFilters", spec="GSpec", consts=dict(MaxSegs=1, MaxChain=1, Damages=_dm)),
              dict(name="preds", module="GenFilters", spec="PSpec", consts=dict(MaxSegs=1, MaxChain=1, Damages=set())),
              dict(name="sim", module="GenFilters", spec="SSpec", sim=dict(num=4000, depth=12), consts=dict(MaxSegs=5, MaxChain=4, Damages=_dm))]),
    thorough=dict(
        models=[dict(module="Filters", invs=_f_invs, consts=dict(Codecs={"hex", "b85", "rl"}, MaxLen=5, MaxWs=2, RowLen=2, Pixels="@{1}")),
                dict(module="Filters", invs=_f_invs, consts=dict(Codecs={"png"}, MaxLen=6, MaxWs=0, RowLen=3, Pixels="@{1, 2}"), workers=8)],
        gens=[dict(name="bfs", module="GenFilters", spec="GSpec", consts=dict(MaxSegs=1, MaxChain=2, Damages={"none"})),
              dict(name="bfsd", module="GenFilters", spec="GSpec", consts=dict(MaxSegs=1, MaxChain=1, Damages=_dm)),
              dict(name="preds", module="GenFilters", spec="PSpec", consts=dict(MaxSegs=1, MaxChain=1, Damages=set())),
              dict(name="sim", module="GenFilters", spec="SSpec", sim=dict(num=60000, depth=24), consts=dict(MaxSegs=12, MaxChain=8, Damages=_dm))]),
    assumptions=["the harness's own encoders implement ISO 32000-1 7.4", "Go's compress/zlib is taken as the Flate codec"])

# --------------------------------------------------------------- P08
_cs_invs, _cs_props = ["CTM", "Params", "Lines", "Shown"], ["Neutral"]
_cs_some = dict(Mats="<- SomeMats", Moves="<- SomeMoves", Fonts="@{1}", Spaces="@{2}", Colors="<- SomeColors", Boxes="<- SomeBoxes")
_cs_more = dict(Mats="<- MoreMats", Moves="<- MoreMoves", Fonts="@{1, 2, 3}", Spaces="@{2}", Colors="<- MoreColors", Boxes="<- MoreBoxes")
CHECKS["P08"] = dict(
    technique="TLA+ spec of the content-stream interpreter checked by TLC; generated operator programs replayed into extraction",
    note="That the interpreter's state is what the unclosed part of the history determines is model-checked; every short program and random long ones are written as page content (streams, filters, forms, fonts and layout chosen at random) and extracted. " + TRUST,
    quick=dict(
        models=[dict(module="ContentStream", invs=_cs_invs, props=_cs_props, consts=dict(_cs_some, MaxOps=4, MaxDepth=2))],
        gens=[dict(name="bfs", module="GenContentStream", spec="GSpec", consts=dict(_cs_some, MaxOps=5, MaxDepth=2, Sim=False)),
              dict(name="sim", module="GenContentStream", spec="SSpec", sim=dict(num=6000, depth=45), consts=dict(_cs_more, MaxOps=40, MaxDepth=4, Sim=True))]),
    thorough=dict(
        models=[dict(module="ContentStream", invs=_cs_invs, props=_cs_props, consts=dict(_cs_some, MaxOps=5, MaxDepth=2), workers=8)],
        gens=[dict(name="bfs", module="GenContentStream", spec="GSpec", consts=dict(_cs_some, MaxOps=6, MaxDepth=2, Sim=False)),
              dict(name="sim", module="GenContentStream", spec="SSpec", sim=dict(num=12000, depth=90), consts=dict(_cs_more, MaxOps=80, MaxDepth=8, Sim=True))]),
    assumptions=["positions are checked at the start of each shown string's line (glyph widths are not modelled)"])

# --------------------------------------------------------------- P09
_ol_invs = ["Linked", "Faithful", "Finite", "Saved"]
CHECKS["P09"] = dict(
    technique="TLA+ spec of outlines as a tree and as linked dictionaries, checked by TLC; generated trees, damage and save sessions replayed",
    note="That local link updates keep the heap equal to the tree, and that the walk reads it back and ends on any damage, is model-checked; every small tree and random large ones are read from generated documents and written through the library in sessions of edits and saves. " + TRUST,
    quick=dict(
        models=[dict(module="Outlines", invs=_ol_invs, consts=dict(MaxItems=4, MaxEdits=5, MaxDamage=1, MaxSaves=0)),
                dict(module="Outlines", invs=_ol_invs, consts=dict(MaxItems=2, MaxEdits=3, MaxDamage=0, MaxSaves=2))],
        gens=[dict(name="bfs", module="GenOutlines", spec="BSpec", invs=["BEmit"], consts=dict(MaxItems=3, MaxEdits=4, MaxDamage=1, MaxSaves=0)),
              dict(name="sim", module="GenOutlines", spec="SSpec", invs=_ol_invs + ["SEmit"], sim=dict(num=800, depth=80), consts=dict(MaxItems=30, MaxEdits=40, MaxDamage=2, MaxSaves=3))]),
    thorough=dict(
        models=[dict(module="Outlines", invs=_ol_invs, consts=dict(MaxItems=4, MaxEdits=6, MaxDamage=1, MaxSaves=0), workers=8),
                dict(module="Outlines", invs=_ol_invs, consts=dict(MaxItems=3, MaxEdits=4, MaxDamage=2, MaxSaves=0), workers=8),
                dict(module="Outlines", invs=_ol_invs, consts=dict(MaxItems=3, MaxEdits=4, MaxDamage=0, MaxSaves=2), workers=8)],
        gens=[dict(name="bfs", module="GenOutlines", spec="BSpec", invs=["BEmit"], consts=dict(MaxItems=4, MaxEdits=5, MaxDamage=1, MaxSaves=0)),
              dict(name="sim", module="GenOutlines", spec="SSpec", invs=_ol_invs + ["SEmit"], sim=dict(num=12000, depth=160), consts=dict(MaxItems=80, MaxEdits=100, MaxDamage=3, MaxSaves=4))]),
    assumptions=["a bookmark has at most one target", "targets in other files and colours are not modelled"])

# --------------------------------------------------------------- P10
_ts = dict(Wide="@{239, 187, 191, 937, 128512, 20013, 228, 8232, 321, 8364, 2570}", MaxConts=3)
_md_f = dict(TextFields={"Title", "Author", "Subject", "Keywords", "Creator", "Producer"}, DateFields={"CreationDate", "ModDate"})
CHECKS["P10"] = dict(
    technique="TLA+ specs of text strings (encodings, literal syntax) and of document information over a document's life, checked by TLC; generated texts and lives replayed",
    note="That writing rules and reader agree on every text, and that a file says what was given last with the same instants, is model-checked; every form of every short text and random lives are read from generated documents, and written and read through the library. " + TRUST,
    quick=dict(
        models=[dict(module="TextStrings", invs=["InStep", "Back"], consts=dict(Alphabet="@{40, 41, 92, 13, 10, 49, 65, 254, 255, 8226}", Encodings={"doc"}, MaxText=3, MaxConts=1)),
                dict(module="TextStrings", invs=["InStep", "Back"], consts=dict(Alphabet="@{40, 41, 92, 13, 10, 254, 255, 937, 8226, 128512, 10536}", Encodings={"doc", "u16", "u8"}, MaxText=1, MaxConts=1)),
                dict(module="Metadata", invs=["Same", "LastGiven", "Grows"], consts=dict(TextFields={"Title"}, DateFields={"CreationDate"}, CustomFields={"k1"}, NumTexts=1, Stamps="<- OneStamp", Versions="@{4, 7}", MaxGives=2, MaxPages=1, MaxFiles=1))],
        gens=[dict(name="text", module="GenTextStrings", spec="GSpec", consts=dict(_ts, Alphabet="@{40, 41, 92, 13, 10, 49, 255, 254, 8226}", Encodings={"doc"}, MaxText=2, MaxConts=1)),
              dict(name="textsim", module="GenTextStrings", spec="SSpec", invs=["GInStep", "Back", "Emit"], sim=dict(num=2000, depth=200), consts=dict(_ts, Alphabet="@{40, 41, 92, 13, 10, 49, 255, 254, 8226, 65, 32}", Encodings={"doc", "u16", "u8"}, MaxText=25)),
              dict(name="dates", module="GenMetadata", spec="GSpec", invs=["Same", "LastGiven", "GEmit"], consts=dict(_md_f, CustomFields={"k1", "k2"}, NumTexts=2, Stamps="<- SomeStamps", Versions="@{4}", MaxGives=2, MaxPages=2, MaxFiles=2, MaxOps=9)),
              dict(name="lives", module="GenMetadata", spec="SSpec", invs=["Same", "LastGiven", "Grows", "Emit"], sim=dict(num=3000, depth=50), consts=dict(_md_f, CustomFields={"k1", "k2", "k3", "k4"}, NumTexts=30, Stamps="<- SomeStamps", Versions="@{2, 3, 4, 5, 6, 7}", MaxGives=4, MaxPages=5, MaxFiles=4, MaxOps=24))]),
    thorough=dict(
        models=[dict(module="TextStrings", invs=["InStep", "Back"], consts=dict(Alphabet="@{40, 41, 92, 13, 10, 49, 65, 254, 255, 8226}", Encodings={"doc"}, MaxText=4, MaxConts=1), workers=8),
                dict(module="TextStrings", invs=["InStep", "Back"], consts=dict(Alphabet="@{40, 41, 92, 13, 10, 254, 255, 937, 8226, 128512, 10536}", Encodings={"doc", "u16", "u8"}, MaxText=1, MaxConts=1)),
                dict(module="Metadata", invs=["Same", "LastGiven", "Grows"], consts=dict(TextFields={"Title"}, DateFields={"CreationDate"}, CustomFields={"k1"}, NumTexts=1, Stamps="<- OneStamp", Versions="@{4, 7}", MaxGives=2, MaxPages=2, MaxFiles=2), workers=8)],
        gens=[dict(name="text", module="GenTextStrings", spec="GSpec", consts=dict(_ts, Alphabet="@{40, 41, 92, 13, 10, 49, 255, 254, 8226}", Encodings={"doc", "u8"}, MaxText=2, MaxConts=1)),
              dict(name="textsim", module="GenTextStrings", spec="SSpec", invs=["GInStep", "Back", "Emit"], sim=dict(num=20000, depth=400), consts=dict(_ts, Alphabet="@{40, 41, 92, 13, 10, 49, 255, 254, 8226, 65, 32}", Encodings={"doc", "u16", "u8"}, MaxText=60)),
              dict(name="dates", module="GenMetadata", spec="GSpec", invs=["Same", "LastGiven", "GEmit"], consts=dict(_md_f, CustomFields={"k1", "k2"}, NumTexts=2, Stamps="<- SomeStamps", Versions="@{4}", MaxGives=2, MaxPages=2, MaxFiles=2, MaxOps=9)),
              dict(name="lives", module="GenMetadata", spec="SSpec", invs=["Same", "LastGiven", "Grows", "Emit"], sim=dict(num=20000, depth=90), consts=dict(_md_f, CustomFields={"k1", "k2", "k3", "k4", "k5", "k6"}, NumTexts=60, Stamps="<- SomeStamps", Versions="@{2, 3, 4, 5, 6, 7}", MaxGives=6, MaxPages=8, MaxFiles=6, MaxOps=50))]),
    assumptions=["text is given as valid UTF-8", "dates a caller cannot mean (unparseable) are not modelled"])

# --------------------------------------------------------------- P14
_af_invs = ["LastWins", "InStep", "Named", "Sound"]
_af = dict(NumNames=2, NumVals=2, NumStates=2)
_af_s = dict(NumNames=4, NumVals=6, NumStates=4)
_fb = dict(NumVals=2, NumActions=1, MaxPages=1)
_fb_s = dict(NumVals=6, NumActions=8, MaxPages=3)
_fb_invs = ["LastSaid", "Kept"]

CHECKS["P14"] = dict(
    technique="TLA+ spec of field trees and their life (fill, foreign revision, flatten), checked by TLC; generated forms and lives replayed",
    note="That a field's value is the one given last, its widgets show it and nothing else changes is model-checked on small forms; those forms and random large ones are built into documents of every layout (encrypted, packed, revised), filled through every entry point and read back strictly and through the library. " + TRUST,
    quick=dict(
        models=[dict(module="AcroForm", invs=_af_invs, props=["Frame"], consts=dict(_af, MaxNodes=2, MaxSteps=1)),
                dict(module="FormBuild", invs=_fb_invs, props=["Frame"], consts=dict(_fb, MaxFields=2, MaxOps=4))],
        gens=[dict(name="bfs", module="GenAcroForm", spec="BSpec", invs=["BEmit"], consts=dict(_af, MaxNodes=2, MaxSteps=1)),
              dict(name="sim", module="GenAcroForm", spec="SSpec", invs=_af_invs + ["SEmit"], sim=dict(num=1500, depth=60), consts=dict(_af_s, MaxNodes=14, MaxSteps=4)),
              dict(name="build", module="GenFormBuild", spec="SSpec", invs=_fb_invs + ["Emit"], sim=dict(num=1500, depth=40), consts=dict(_fb_s, MaxFields=6, MaxOps=24))]),
    thorough=dict(
        models=[dict(module="AcroForm", invs=_af_invs, props=["Frame"], consts=dict(_af, MaxNodes=2, MaxSteps=2), workers=8),
                dict(module="FormBuild", invs=_fb_invs, props=["Frame"], consts=dict(_fb, MaxFields=2, MaxOps=5), workers=8)],
        gens=[dict(name="bfs", module="GenAcroForm", spec="BSpec", invs=["BEmit"], consts=dict(_af, MaxNodes=2, MaxSteps=1)),
              dict(name="sim", module="GenAcroForm", spec="SSpec", invs=_af_invs + ["SEmit"], sim=dict(num=6000, depth=90), consts=dict(_af_s, MaxNodes=24, MaxSteps=7)),
              dict(name="build", module="GenFormBuild", spec="SSpec", invs=_fb_invs + ["Emit"], sim=dict(num=8000, depth=70), consts=dict(_fb_s, MaxFields=12, MaxOps=50))]),
    assumptions=["appearances of text fields are left to the viewer", "flattening means taking the form away, as documented"])
