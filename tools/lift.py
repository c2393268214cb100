"""Lift C++ sources of /repo to symbolic scalars, token by token.

double/float -> Sym, floating literals -> exact rationals, Eigen/OpenCV typedefs on doubles -> their Sym versions,
exit()/assert() -> hooks of the engine. Nothing else changes: control flow, containers and classes stay the repo's own."""
import os
import re
import sys

TOK = re.compile(
    r"""(?P<lc>//[^\n]*)|(?P<bc>/\*.*?\*/)|(?P<raw>R"\((?:.|\n)*?\)")|(?P<str>(?:u8|u|U|L)?"(?:\\.|[^"\\\n])*")|(?P<chr>'(?:\\.|[^'\\\n])+')
    |(?P<flt>(?:\d[\d']*\.[\d']*(?:[eE][+-]?\d+)?|\.\d[\d']*(?:[eE][+-]?\d+)?|\d[\d']*[eE][+-]?\d+)[fFlL]?)
    |(?P<int>0[xX][0-9a-fA-F]+[uUlL]*|\d[\d']*[uUlL]*)|(?P<id>[A-Za-z_]\w*)|(?P<ws>\s+)|(?P<op>.)""",
    re.X | re.S,
)

EIG = re.compile(r"^(Matrix|Vector|RowVector|Array)((?:X|[234])(?:X|[234])?)[df]$")
EIG_SINGLE = {
    "Quaterniond": "Quaternion<vf::Sym>", "Quaternionf": "Quaternion<vf::Sym>",
    "AngleAxisd": "AngleAxis<vf::Sym>", "AngleAxisf": "AngleAxis<vf::Sym>",
    "Isometry3d": "Transform<vf::Sym,3,Eigen::Isometry>", "Affine3d": "Transform<vf::Sym,3,Eigen::Affine>",
    "Translation3d": "Translation<vf::Sym,3>",
}
MACROS = {"M_PI": "(vf::lit(\"3.14159265358979323846\"))", "M_PI_2": "(vf::lit(\"1.57079632679489661923\"))",
          "M_PI_4": "(vf::lit(\"0.785398163397448309616\"))", "DBL_MAX": "(vf::lit(\"1e300\"))", "DBL_MIN": "(vf::lit(\"1e-300\"))",
          "FLT_MAX": "(vf::lit(\"1e300\"))", "NAN": "(vf::mk(vf::ID_NAN))", "INFINITY": "(vf::mk(vf::ID_PINF))",
          "DBL_EPSILON": "(vf::lit(\"2.220446049250313e-16\"))"}


def lift(text):
    out = []
    in_pp = False  # inside a preprocessor directive line
    pp_kind = ""
    line_start = True
    toks = [(m.lastgroup, m.group()) for m in TOK.finditer(text)]
    n = len(toks)

    def next_sig(i):
        j = i + 1
        while j < n and toks[j][0] in ("ws", "lc", "bc"):
            j += 1
        return toks[j] if j < n else ("", "")

    def prev_sig(i):
        j = i - 1
        while j >= 0 and toks[j][0] in ("ws", "lc", "bc"):
            j -= 1
        return toks[j] if j >= 0 else ("", "")

    for i, (k, t) in enumerate(toks):
        if k == "ws":
            if "\n" in t:
                # a continuation backslash keeps the directive open
                if in_pp and out and out[-1].rstrip().endswith("\\"):
                    pass
                else:
                    in_pp = False
                line_start = True
            out.append(t)
            continue
        if k in ("lc", "bc"):
            # keep newlines so that line numbers stay
            out.append("\n" * t.count("\n") if k == "bc" else "")
            if k == "bc" and "\n" not in t:
                out.append(" ")
            continue
        if k == "op" and t == "#" and line_start:
            in_pp = True
            pp_kind = next_sig(i)[1]
            out.append(t)
            line_start = False
            continue
        line_start = False
        if in_pp and pp_kind in ("include", "if", "ifdef", "ifndef", "elif", "pragma", "undef", "else", "endif"):
            out.append(t)
            continue
        if k == "flt":
            lit = t.rstrip("fFlL").replace("'", "")
            out.append('vf::lit("%s")' % lit)
            continue
        if k == "id":
            if t in ("double", "float"):
                if prev_sig(i)[1] == "long":
                    # long double -> Sym
                    for q in range(len(out) - 1, -1, -1):
                        if out[q] == "long":
                            out[q] = ""
                            break
                out.append("vf::Sym")
                continue
            if t == "thread" and "".join(o.strip() for o in out[-6:]).endswith("std::"):
                out.append("vf_thread")  # a thread runs to its end where it is started (one schedule)
                continue
            if t == "constexpr":
                # constexpr of a symbolic scalar is a plain const; integers keep constexpr
                nx = [x[1] for x in toks[i + 1:i + 12] if x[0] not in ("ws", "lc", "bc")]
                if any(x in ("double", "float") or EIG.match(x) for x in nx[:4]):
                    out.append("const")
                    continue
            m = EIG.match(t)
            if m:
                out.append(m.group(1) + m.group(2) + "S")
                continue
            if t in EIG_SINGLE:
                out.append(EIG_SINGLE[t])
                continue
            if t in MACROS and not in_pp:
                out.append(MACROS[t])
                continue
            nx = next_sig(i)[1]
            if t == "assert" and nx == "(":
                out.append("VF_ASSERT")
                continue
            if t in ("exit", "_exit", "quick_exit", "abort") and nx == "(":
                p = prev_sig(i)[1]
                if p not in (".", "->", "void"):
                    # drop a preceding std:: or ::
                    while out and (out[-1].strip() in ("std", ":", "")):
                        if out[-1].strip() == "" and "\n" in out[-1]:
                            break
                        out.pop()
                    out.append(" vf::code_%s" % ("exit" if t != "abort" else "abort"))
                    continue
        out.append(t)
    s = "".join(out)
    return s


if __name__ == "__main__":
    sys.stdout.write(lift(open(sys.argv[1]).read()))
