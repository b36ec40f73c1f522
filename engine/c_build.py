"""What a failed build of the witness crate says about a property.

The witness crate is the type-level side of the analysis: it uses every
operation through a shared reference and requires every base and space to be
Send, Sync and Clone.  When /repo compiles but the witness does not, the
compiler's message is attributed; everything else stays undecided."""
import re


def explain(prop, log):
    out = []
    if prop == "C21":
        for pat, what in ((r"error\[E0277\]: `([^`]*)` cannot be (shared|sent) between threads safely", "thread safety"),
                          (r"error\[E0596\]: cannot borrow ([^\n]*) as mutable", "operation needs a mutable base")):
            for m in re.finditer(pat, log):
                tail = log[m.end():m.end() + 1500]
                loc = re.search(r"--> ([^\n]*)", tail)
                where = loc.group(1) if loc else "?"
                out.append(dict(id="witness::" + what, status="bad", rule="type-level witness",
                                detail="%s (%s)" % (m.group(0)[:200], where)))
    if not out:
        out.append(dict(id="build", status="unknown", rule="type-level witness",
                        detail="the analysed tree or the witness crate does not build: " + log[-600:]))
    return out
