"""P01: printed expressions denote the expression's value in every target language."""
import load
import printers as PR
import target as T
import engine as EN
import values
import sem
from engine import Undecided, I
from report import Report


def rename(text, holes, pre):
    for h in sorted(holes, key=len, reverse=True):
        text = text.replace(h, pre + h)
    return text


def composition(R, pcls, lang, samples):
    """an operand's text must stay one operand wherever it is put"""
    loose, seen = [], set()
    for tag, case, text, hs, shape, holes in samples:
        try:
            e = T.parse(text, lang)
        except T.Bad:
            continue
        if T.loose(e) and (tag, case) not in seen:
            seen.add((tag, case))
            loose.append((tag, case, text, shape, holes))
    done = set()
    n = 0
    for tag, case, text, hs, shape, holes in samples:
        if (tag, case) in done or tag in ("Symbol", "Unknown"):
            continue
        done.add((tag, case))
        for h in hs:
            for ctag, ccase, ctext, cshape, choles in loose:
                # positions that only ever hold numbers or names cannot hold this operand
                if (tag, h) == ("Pow", "H1q") or tag == "Der":
                    continue
                if hs[h] != cshape and cshape is not None:
                    continue
                c = rename(ctext, choles, "K")
                try:
                    good = T.strip(T.parse(text.replace(h, "(" + c + ")"), lang))
                except T.Bad:
                    continue
                n += 1
                try:
                    got = T.strip(T.parse(text.replace(h, c), lang))
                except T.Bad as b:
                    got = str(b)
                f = "%s::print(%s)" % (pcls, tag)
                if got != good:
                    R.bad("operand text", "%s inside %s" % (ctag, f), ccase, "%r put into %r is read as a different expression" % (ctext[:80], text[:80]))
                else:
                    R.ok("operand text", "%s inside %s" % (ctag, f), ccase)
    R.anchor("operand compositions of unparenthesised texts", n)


def counting(db, R):
    """an unsupported construct is counted: error() adds one, getErrorcount() reports (and only then resets) it"""
    f = db.one(sem.NS + "Printer::error", 1)
    E = values.engine_for(db)
    this = ("this", sem.NS + "Printer")
    old = ("fld", this, "m_errorcount")
    for o in E.run(f):
        v = o.st.fields.get((this, "m_errorcount"), old)
        if v == EN.add(old, I(1)):
            R.ok("error count", "Printer::error", values.case_of(o), file=f["file"], line=f["l"])
        elif v == old or v[0] == "int":
            R.bad("error count", "Printer::error", values.case_of(o), "the error is not counted: m_errorcount becomes %s" % EN.show(v), f["file"], o.line)
        else:
            R.undecided("error count", "Printer::error", values.case_of(o), EN.show(v), f["file"], o.line)
    f = db.one(sem.NS + "Printer::getErrorcount", 1)
    for o in E.run(f):
        v = o.st.fields.get((this, "m_errorcount"), old)
        reset = any(a == ("truth", ("param", "p0")) and b for a, b in o.guards)
        want = I(0) if reset else old
        st = "ok" if o.value == old and v == want else "violation" if o.value is not None and (o.value[0] in ("int", "fld")) else "undecided"
        R.ob("error count", "Printer::getErrorcount", values.case_of(o), st, "returns %s, leaves %s" % (EN.show(o.value), EN.show(v)), f["file"], o.line)


def run(prop, tier):
    db = load.DB(["core", "functions", "graph", "printer"])
    R = Report(prop, tier, "text template of every node kind in every target language, parsed by that language's grammar == value of the node")
    tags = [t[5:] for t in PR.engine_for(db).tags]
    fn = db.one(sem.NS + "Printer::print", 1)
    for pcls, lang in PR.LANGS.items():
        if not db.records.get(sem.NS + pcls):
            raise load.Broken("printer class " + pcls)
        samples = []
        for tag in tags:
            if tag in ("Jacobian",):
                continue
            res, _ = PR.decide(db, pcls, tag, lang, tries=90 if tier == "quick" else 600, want=10 if tier == "quick" else 60, collect=samples)
            for case, st, detail, line in res:
                R.ob("text", "%s::print(%s)" % (pcls, tag), case, {"equal": "ok", "refused": "ok", "differ": "violation"}.get(st, st), detail, fn["file"], line)
        composition(R, pcls, lang, samples)
    R.anchor("printers", len(PR.LANGS))
    R.anchor("node kinds", len(tags))
    counting(db, R)
    return R.finish("Printer::print is analysed for every target printer and every node kind (virtual calls resolved for that printer); the returned text is extracted as a "
                    "template over the operands' texts, instantiated with place holders, parsed with the precedence and associativity of the target language and interpreted; "
                    "node kinds a target cannot express must raise an error or count one. Texts that are not self delimiting are substituted into every operand position.",
                    ["grammars and meaning of the target operators and of the library/helper functions used (numpy, MathNet, Fortran helpers, Modelica.Math) are tabulated in sa/target.py",
                     "component-wise targets (C, C#, FMI) are compared for scalar operands, element access and initialisers, since their writers emit matrices component by component",
                     "Fortran's sign() and the MATLAB symbolic replacement of sign/atan2 are compared where sign's operand is not zero and atan2 is off its branch cut",
                     "products whose partial products change shape class, and unsimplified products with scalar factors not in front (Fortran), are not compared",
                     "texts are compared up to the 15 digits the printers emit; texts outside the modelled fragment are undecided"], min_ok=200)
