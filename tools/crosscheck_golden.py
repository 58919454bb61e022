#!/usr/bin/env python3
"""One-time cross-check of golden/ucd.bin against the Unicode databases installed in this sandbox."""
import glob, os, re, struct, subprocess, unicodedata
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CATS = "Pe Pc Cc Sc Pd Nd Me Pf Cf Pi Nl Zl Ll Sm Lm Sk Mn Ps Lo No Po So Zp Co Zs Mc Cs Lt Cn Lu".split()
VERS = "9.0.0 10.0.0 11.0.0 12.0.0 12.1.0 13.0.0 14.0.0 15.0.0 15.1.0 16.0.0 17.0.0".split()


def golden():
    d = open(ROOT + "/golden/ucd.bin", "rb").read()
    pos, out = 0, {}
    for v in VERS:
        n, = struct.unpack_from("<I", d, pos)
        pos += 4
        arr = []
        for _ in range(n):
            ln = sh = 0
            while True:
                b = d[pos]; pos += 1
                ln |= (b & 127) << sh
                sh += 7
                if b < 128:
                    break
            arr += [CATS[d[pos]]] * ln
            pos += 1
        assert len(arr) == 0x110000
        out[v] = arr
    assert pos == len(d)
    return out


def diff(name, v, other, g):
    bad = [(hex(c), g[v][c], other[c]) for c in range(0x110000) if g[v][c] != other[c]]
    print(f"{name} {v}: {len(bad)} differences", bad[:20])


g = golden()
assert unicodedata.unidata_version == "15.0.0"
diff("python unicodedata", "15.0.0", [unicodedata.category(chr(c)) for c in range(0x110000)], g)
js = "const C=%r.map(c=>[c,new RegExp('^\\\\p{gc='+c+'}$','u')]);let o=[];for(let i=0;i<0x110000;i++){const s=String.fromCodePoint(i);o.push(C.find(([c,r])=>r.test(s))[0])}console.log(process.versions.unicode+' '+o.join(' '))" % CATS
out = subprocess.run(["node", "-e", js], capture_output=True, text=True, check=True).stdout.split()
diff("node ICU", out[0] + ".0", out[1:], g)
jv = 'public class G{public static void main(String[] a){StringBuilder b=new StringBuilder();for(int i=0;i<0x110000;i++)b.append((char)(48+Character.getType(i)));System.out.print(b);}}'
os.makedirs("/tmp/gj", exist_ok=True)
open("/tmp/gj/G.java", "w").write(jv)
J = {0: "Cn", 1: "Lu", 2: "Ll", 3: "Lt", 4: "Lm", 5: "Lo", 6: "Mn", 7: "Me", 8: "Mc", 9: "Nd", 10: "Nl", 11: "No", 12: "Zs", 13: "Zl", 14: "Zp", 15: "Cc", 16: "Cf", 18: "Co", 19: "Cs", 20: "Pd", 21: "Ps", 22: "Pe", 23: "Pc", 24: "Po", 25: "Sm", 26: "Sc", 27: "Sk", 28: "So", 29: "Pi", 30: "Pf"}
out = subprocess.run(["java", "/tmp/gj/G.java"], capture_output=True, text=True, check=True).stdout
diff("java 17", "13.0.0", [J[ord(ch) - 48] for ch in out], g)
rs = glob.glob("/root/.cargo/registry/src/*/regex-syntax-0.8.11/src/unicode_tables/")[0]
tx = open(rs + "general_category.rs").read()
LONG = {n: c for n, c in zip("Close_Punctuation Connector_Punctuation Control Currency_Symbol Dash_Punctuation Decimal_Number Enclosing_Mark Final_Punctuation Format Initial_Punctuation Letter_Number Line_Separator Lowercase_Letter Math_Symbol Modifier_Letter Modifier_Symbol Nonspacing_Mark Open_Punctuation Other_Letter Other_Number Other_Punctuation Other_Symbol Paragraph_Separator Private_Use Space_Separator Spacing_Mark Surrogate Titlecase_Letter Unassigned Uppercase_Letter".split(), CATS)}


def esc(s):
    m = re.match(r"\\u\{([0-9a-f]+)\}$", s)
    return int(m.group(1), 16) if m else ord({"\\0": "\0", "\\t": "\t", "\\n": "\n", "\\r": "\r"}.get(s, s[-1]))


arr = ["Cs" if 0xD800 <= i < 0xE000 else None for i in range(0x110000)]
for n, c in LONG.items():
    m = re.search(r"pub const %s: &'static \[\(char, char\)\] =\s*&\[(.*?)\];" % n.upper(), tx, re.S)
    if m:
        for a, b in re.findall(r"\('(.+?)', '(.+?)'\)", m.group(1)):
            for i in range(esc(a), esc(b) + 1):
                if c != "Cn" or arr[i] is None:
                    arr[i] = c
diff("regex-syntax", "16.0.0", arr, g)
# Ages: which code points were assigned in which version, for the versions without a database here.
tx = open(rs + "age.rs").read()
age = [None] * 0x110000
for a_, b_, body in re.findall(r"pub const V(\d+)_(\d+): &'static \[\(char, char\)\] =\s*&\[(.*?)\];", tx, re.S):
    for a, b in re.findall(r"\('(.+?)', '(.+?)'\)", body):
        for i in range(esc(a), esc(b) + 1):
            age[i] = (int(a_), int(b_))
for v in VERS[:-1]:
    mm = tuple(map(int, v.split(".")[:2]))
    non = [i for i in range(0x110000) if (i & 0xFFFE) == 0xFFFE or 0xFDD0 <= i <= 0xFDEF]
    non = set(non)
    bad = [hex(i) for i in range(0x110000) if not 0xD800 <= i < 0xE000 and
           (g[v][i] != "Cn") != (age[i] is not None and age[i] <= mm and i not in non)]
    print("assignment by age", v, len(bad), bad[:10])
for a, b in zip(VERS, VERS[1:]):
    ch = [(hex(i), g[a][i], g[b][i]) for i in range(0x110000) if g[a][i] != g[b][i] and g[a][i] != "Cn"]
    print("recategorised", a, b, ch)
