#!/usr/bin/env python3
"""gate.py OUT [-j N]: gated mutants. A public function is wrapped so that its result is off by 2 percent (or 1e-3 where that is larger) only where a
gate on its arguments holds: narrow windows, ties, orderings, signs, magnitudes. Each is given to the property's own quick check."""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = sys.argv[1]; J = int(sys.argv[3]) if len(sys.argv) > 3 else 3
SRC = open("/repo/include/colorsystem.hpp").read()
T = "const Tristimulus &"
def tri(a):  # gates for one colour with components around 0..1
    return [f"{a}[0] > 0.40f && {a}[0] < 0.44f && {a}[1] > 0.2f && {a}[1] < 0.24f", f"{a}[0] == {a}[1] && {a}[1] > {a}[2] && {a}[2] > 0.f", f"{a}[1] == 0.f && {a}[0] > 0.f && {a}[2] > 0.3f",
            f"{a}[0] < {a}[1] && {a}[1] < {a}[2] && {a}[2] < 0.01f && {a}[0] > 1e-4f", f"{a}[0] > 0.9f && {a}[0] < 0.97f && {a}[1] > 0.9f && {a}[1] < 0.97f && {a}[2] > 0.9f"]
def lab(a):
    return [f"{a}[0] > 50.f && {a}[0] < 53.f && {a}[1] > 10.f && {a}[1] < 14.f", f"{a}[1] == 0.f && {a}[2] > 0.f && {a}[2] < 1.f", f"{a}[1] < -60.f && {a}[2] > 60.f", f"{a}[0] < 3.f && {a}[0] > 0.f && {a}[1] > 0.f && {a}[2] < 0.f"]
def pair(a, b): # gates for a pair of Lab-like colours
    return [f"{a}[0] == {b}[0] && {a}[1] == -{b}[1] && {a}[1] != 0.f", f"{a}[0] > 90.f && {b}[0] < 10.f && {a}[1] > 0.f && {b}[1] < 0.f", f"{a}[1] == {b}[1] && {a}[2] == {b}[2] && {a}[0] != {b}[0] && {a}[0] < 1.f",
            f"{a}[2] < -50.f && {b}[2] < -50.f && {a}[1] > 0.f && {b}[1] > 0.f && {a}[0] > 20.f"]
def sc(a, *w): return [f"{a} > {float(l)}f && {a} < {float(h)}f" for l, h in w]
# (signature start, name, parameters, arguments, return kind, check, gates)
F = [
 ("static constexpr Tristimulus toCIELAB(const Tristimulus &t, const Tristimulus &white)", "t", "C06", tri("t")),
 ("static constexpr Tristimulus fromCIELAB(const Tristimulus &t, const Tristimulus &white)", "t", "C06", lab("t")),
 ("static constexpr Tristimulus toHSV(const Tristimulus &t)", "t", "C07", tri("t")),
 ("static Tristimulus toHSV_atan(const Tristimulus &t)", "t", "C07", tri("t")),
 ("static constexpr Tristimulus fromHSV(const Tristimulus &t)", "t", "C07", ["t[0] > 359.f && t[1] > 0.9f && t[2] < 0.1f && t[2] > 0.f", "t[0] < -300.f && t[1] < 0.1f && t[1] > 0.f && t[2] > 0.5f", "t[0] == 180.f && t[1] == 1.f && t[2] == 0.5f", "t[0] > 100.f && t[0] < 104.f && t[1] > 0.3f && t[1] < 0.34f"]),
 ("static constexpr Tristimulus YxyToYuv(const Tristimulus &Yxy)", "t", "C05", ["Yxy[1] > 0.3f && Yxy[1] < 0.32f && Yxy[2] > 0.32f && Yxy[2] < 0.34f", "Yxy[2] > 0.7f && Yxy[0] < 1e-3f && Yxy[0] > 0.f", "Yxy[1] == Yxy[2] && Yxy[0] > 10.f"]),
 ("static constexpr Tristimulus YuvToYxy(const Tristimulus &Yuv)", "t", "C05", ["Yuv[1] > 0.19f && Yuv[1] < 0.2f && Yuv[2] > 0.3f && Yuv[2] < 0.32f", "Yuv[1] > 0.5f && Yuv[0] < 1e-3f && Yuv[0] > 0.f"]),
 ("static constexpr Tristimulus toYxy(const float &X, const float &Y, const float &Z)", "t", "C05", ["X == Y && Y == Z && X > 0.f && X < 0.01f", "X > 100.f && Y < 1.f && Y > 0.f", "Z == 0.f && X > Y && Y > 0.f && X < 0.5f", "X > 0.94f && X < 0.96f && Y > 0.98f && Y < 1.02f"]),
 ("static constexpr Tristimulus fromYxy(const float &Y, const float &x, const float &y)", "t", "C05", ["x > 0.3f && x < 0.32f && y > 0.32f && y < 0.34f", "y < 0.01f && y > 1e-4f && x < 0.2f", "x + y == 1.f && Y > 1.f"]),
 ("static constexpr Tristimulus fromPlanckianLocus(const float &T, const float &Y = 1.f)", "t", "C10", sc("T", (2210, 2222), (3990, 4000), (6500, 6510), (24000, 25000), (1667, 1680))),
 ("static constexpr Tristimulus fromCT(const float &T, const float Y = 1.f)", "t", "C10", sc("T", (1000, 1010), (3990, 4010), (14990, 15000))),
 ("static constexpr Tristimulus fromCCT(const float &T, const float &dUV, const float Y = 1.f)", "t", "C10", ["dUV < -0.015f && T > 5000.f && T < 5100.f", "dUV > 0.f && dUV < 0.001f && T < 2500.f", "T > 9000.f && dUV == 0.f"]),
 ("static const Tristimulus XYZ_to_ICtCp(const Tristimulus &xyz)", "t", "C09", tri("xyz")),
 ("static const Tristimulus ICtCp_to_XYZ(const Tristimulus &icc)", "t", "C09", ["icc[0] > 0.5f && icc[0] < 0.52f && icc[1] > 0.f && icc[2] < 0.f", "icc[0] < 0.1f && icc[0] > 0.02f && icc[1] == 0.f", "icc[1] > 0.1f && icc[2] > 0.1f && icc[0] > 0.3f"]),
 ("static const Tristimulus XYZ_to_OKLAB(const Tristimulus &xyz)", "t", "C08", tri("xyz") + ["xyz[0] < 0.f && xyz[1] > 0.f && xyz[2] > 0.f && xyz[0] > -0.05f"]),
 ("static const Tristimulus OKLAB_to_XYZ(const Tristimulus &lab)", "t", "C08", ["lab[0] > 0.5f && lab[0] < 0.52f && lab[1] > 0.1f && lab[1] < 0.12f", "lab[1] == 0.f && lab[2] < 0.f && lab[0] < 0.2f", "lab[0] > 1.f && lab[1] < 0.f && lab[2] < 0.f && lab[0] < 1.2f"]),
 ("static const float UV(const Tristimulus &a_Yuv, const Tristimulus &b_Yuv)", "f", "C16", ["a_Yuv[1] == b_Yuv[1] && a_Yuv[2] > b_Yuv[2] && a_Yuv[1] > 0.2f", "a_Yuv[1] > 0.19f && a_Yuv[1] < 0.21f && b_Yuv[2] > 0.3f && b_Yuv[2] < 0.33f", "a_Yuv[0] > 1.f && b_Yuv[0] < 1.f"]),
 ("static const float E76(const Tristimulus &a_LAB, const Tristimulus &b_LAB)", "f", "C16", pair("a_LAB", "b_LAB")),
 ("static const float ICtCp(const Tristimulus &a_xyz, const Tristimulus &b_xyz)", "f", "C16", ["a_xyz[1] > 0.9f && b_xyz[1] > 0.9f && a_xyz[0] < b_xyz[0]", "a_xyz[0] == b_xyz[0] && a_xyz[2] == b_xyz[2] && a_xyz[1] != b_xyz[1]", "a_xyz[1] < 0.01f && b_xyz[1] < 0.01f && a_xyz[1] > 0.f && b_xyz[0] > 0.f"]),
 ("static /*constexpr*/ Matrix3 Bradford(const Tristimulus &white_src, const Tristimulus &white_dst)", "m", "C15", ["white_src[2] > 1.2f && white_dst[2] < 0.4f", "white_src[0] > white_dst[0] && white_src[2] > white_dst[2]", "white_src[1] != 1.f && white_dst[1] == 1.f", "white_src[0] == white_src[2] && white_src[1] == white_src[0]"]),
 ("static const float ST2084_to_Y(const float &pixel)", "f", "C02", sc("pixel", (0.5, 0.502), (0.001, 0.0011), (0.9, 0.901), (0.0750, 0.0751))),
 ("static const float Y_to_ST2084(const float &C)", "f", "C02", sc("C", (0.5, 0.502), (0.001, 0.0011), (90, 90.1))),
 ("static const float Y_to_sRGB(const float &C)", "f", "C02", sc("C", (0.0031, 0.00314), (0.5, 0.501), (0.999, 1.0))),
 ("static const float HLG_to_Y(const float &C)", "f", "C02", sc("C", (0.5, 0.501), (0.05, 0.0501), (0.999, 1.0))),
 ("static const float Y_to_SLog3(const float &x)", "f", "C02", sc("x", (0.0112, 0.0113), (0.18, 0.181), (0.0, 1e-4))),
 ("static const float SLog2_to_Y(const float &C)", "f", "C02", sc("C", (0.35, 0.351), (0.7, 0.701), (0.1, 0.1001))),
 ("static const double planck(const double &T, const double &l)", "f", "C20", ["T > 3200 && T < 3210 && l > 5.5e-7 && l < 5.6e-7", "T > 20000 && l < 1.2e-7", "l > 9e-6 && T < 700"]),
]
M = lambda a: [f"{a}[0] > 0.4f && {a}[0] < 0.5f && {a}[4] > 1.f && {a}[8] > 1.f", f"{a}[1] == 0.f && {a}[2] == 0.f && {a}[5] == 0.f && {a}[0] != 1.f && {a}[0] != 0.f", f"{a}[0] < 0.f && {a}[4] < 0.f", f"{a}[0] == {a}[4] && {a}[4] == {a}[8] && {a}[0] != 1.f && {a}[0] != 0.f",
               f"{a}[1] == {a}[3] && {a}[2] == {a}[6] && {a}[5] == {a}[7] && {a}[1] != 0.f", f"{a}[0] > 1000.f", f"{a}[0] + {a}[1] + {a}[2] == 1.f && {a}[1] != 0.f"]
F += [
 ("static const float E00(const Tristimulus &lab1, const Tristimulus &lab2, const float &Kl = 1.f, const float &Kc = 1.f, const float &Kh = 1.f)", "f", "C17",
  pair("lab1", "lab2") + ["Kl == 2.f && Kc == 1.f && Kh == 1.f && lab1[0] > 50.f", "Kh != 1.f && lab1[1] == lab2[1] && lab1[2] != lab2[2]", "lab1[1] == 0.f && lab1[2] == 0.f && lab2[1] > 20.f", "lab1[0] > 48.f && lab1[0] < 52.f && lab1[1] > 0.f && lab1[2] < -60.f", "lab1[0] > 100.f && lab2[0] > 100.f"]),
 ("static constexpr Matrix3 invert(const Matrix3 &a)", "m", "C12", M("a")),
 ("static constexpr float det(const Matrix3 &m)", "f", "C11", M("m")),
 ("static constexpr Matrix3 transpose(const Matrix3 &a)", "m", "C11", M("a")),
 ("static constexpr Matrix3 mul(const Matrix3 &a, const Matrix3 &b)", "mm", "C11", M("a") + M("b")),
 ("static constexpr Matrix3 add(const Matrix3 &a, const Matrix3 &b)", "mm", "C11", M("a")),
 ("static constexpr Vector3 apply(const Matrix3 &m, const Vector3 &v)", "v", "C11", M("m") + ["v[0] == v[1] && v[1] == v[2] && v[0] > 1.f", "v[0] < 0.f && v[1] > 0.f && v[2] < 0.f"]),
 ("static constexpr Matrix3 crosstalk(const float r)", "m", "C12", sc("r", (0.3, 0.32), (0.01, 0.011), (-0.2, -0.1), (0.9, 0.95))),
 ("static constexpr Matrix3 crosstalkInvert(const float r)", "m", "C12", sc("r", (0.3, 0.32), (0.01, 0.011), (0.4, 0.42))),
 ("static constexpr Tristimulus scale(const Tristimulus &t, const float &s)", "t", "C11", tri("t") + sc("s", (0.5, 0.51), (-2, -0.5), (100, 1000))),
 ("static constexpr Tristimulus mul(const Tristimulus &a, const Tristimulus &b)", "t", "C11", tri("a") + ["a[0] < 0.f && b[0] < 0.f && a[1] > 0.f"]),
 ("static constexpr float      dot(const Tristimulus &a, const Tristimulus &b)", "f", "C11", tri("a") + ["a[0] < 0.f && b[0] < 0.f && a[1] > 0.f"]),
 ("static constexpr Tristimulus min(const Tristimulus &a, const Tristimulus &b)", "t", "C33", tri("a") + ["a[0] == b[0] && a[1] < b[1] && a[2] > b[2]", "a[0] < 0.f && b[0] < 0.f"]),
 ("constexpr Tristimulus clip(const float &l, const float &h) const", "t", "C33", ["l == h", "l < -1.f && h > 1.f && h < 10.f", "l > 0.f && h < 1.f", "l > 0.f && h > 1.f"]),
 ("static const Tristimulus toScreen(TYPE type, const Tristimulus &scene, const float g = 1.f)", "t", "C04", [f"type == {t} && scene[0] > 0.17f && scene[0] < 0.2f" for t in ("GAMMA", "SRGB", "BT709", "ST2084", "SLOG2", "HLG", "LINEAR")] + ["scene[0] == scene[1] && scene[1] == scene[2] && scene[0] > 0.f && type == HLG", "scene[0] < 0.f && scene[1] > 0.f && type == SRGB", "type == GAMMA && g > 2.3f && g < 2.5f"]),
 ("static const Tristimulus toScene(TYPE type, const Tristimulus &screen, const float g = 1.f)", "t", "C04", [f"type == {t} && screen[2] > 0.48f && screen[2] < 0.52f && screen[0] < 0.4f" for t in ("GAMMA", "SRGB", "BT709", "ST2084", "SLOG2", "HLG", "LINEAR")] + ["type == GAMMA && g < 1.f"]),
 ("static const float Y_to_HLG(const float &C)", "f", "C02", sc("C", (0.5, 0.51), (1.0, 1.01), (0.02, 0.021), (11.0, 11.1))),
 ("static const float SLog3_to_Y(const float &x)", "f", "C02", sc("x", (0.16, 0.17), (0.41, 0.42), (0.9, 0.91))),
 ("static const float CV_to_IRE_SLog2(const float &cv)", "f", "C02", sc("cv", (0.3, 0.31), (0.9, 0.91))),
 ("static const float IRE_to_CV_SLog2(const float &ire)", "f", "C02", sc("ire", (0.3, 0.31), (0.9, 0.91), (1.0, 1.05))),
 ("static const Spectrum blackbody(const float temp)", "s", "C20", sc("temp", (3200, 3210), (6500, 6510), (900, 910), (19000, 19100))),
 ("static const Spectrum E(const float e = 1.f)", "s", "C19", sc("e", (0.3, 0.31), (0.999, 1.001), (-2, -0.5))),
 ("constexpr Tristimulus fromSpectrum(const Spectrum &s) const", "t", "C19", ["s[0] == s[399] && s[0] > 0.f && s[200] > s[0]", "s[0] < 0.f", "s[399] > 100.f", "s[0] == 0.f && s[100] == 0.f && s[300] > 0.f"]),
 ("constexpr Tristimulus fromReflectanceAndLight(const Spectrum &r, const Spectrum &l) const", "t", "C19", ["r[0] == 1.f && r[399] == 1.f && l[0] != l[399]", "r[0] == 0.f && l[0] > 0.f", "l[0] > l[399] && r[0] < r[399]"]),
 ("constexpr Tristimulus xyz(const float lambda) const", "t", "C32", sc("lambda", (555, 556), (380, 380.4), (778.5, 779.0), (600, 600.01))),
]
def perturb(kind, call):
    if kind == "mm": return f"bump_({call})"
    if kind == "v": return f"bump_({call})"
    if kind == "s": return f"mul({call}, 1.02f)"
    if kind == "t": return f"({call} * 1.02f + Tristimulus(0.001f, 0.001f, 0.001f))"
    if kind == "m": return f"Matrix3::mul({call}, 1.02f)"
    return f"({call} * 1.02f + 1e-3f)" if "planck" not in call else f"({call} * 1.02)"
def norm(s): return re.sub(r"\s+", "", re.sub(r"//[^\n]*", "", s))
def wrap(sig, kind, gate):
    name = re.search(r"(\w+)\(", sig).group(1)
    # locate the definition, whitespace and comments apart
    want = norm(sig)
    for m in re.finditer(re.escape(name) + r"\(", SRC):
        ls = SRC.rfind("\n", 0, m.start()) + 1
        b = SRC.find("{", m.start())
        if norm(SRC[ls:b]) == want:
            head = SRC[ls:b]
            params = re.search(r"\((.*)\)", re.sub(r"//[^\n]*", "", head), re.S).group(1)
            args = ", ".join(re.search(r"(\w+)\s*(=.*)?$", p.strip()).group(1) for p in params.split(","))
            inner = head.replace(name + "(", name + "_inner(", 1)
            call = f"{name}_inner({args})"
            # the inner form first (end of its body by bracket matching), the gated wrapper after it
            d, e = 0, b
            while True:
                d += SRC[e] == "{"; d -= SRC[e] == "}"; e += 1
                if d == 0: break
            clean = re.sub(r"//[^\n]*", "", head)
            if kind == "mm": clean = "static constexpr Matrix3 bump_(const Matrix3 &r_) { return Matrix3(r_[0] + 0.001f, r_[1], r_[2], r_[3], r_[4] * 1.02f, r_[5], r_[6], r_[7], r_[8]); }\n" + clean
            if kind == "v": clean = "static constexpr Vector3 bump_(const Vector3 &r_) { return Vector3(r_[0] + 0.001f, r_[1], r_[2] * 1.02f); }\n" + clean
            return SRC[:ls] + inner + SRC[b:e] + "\n" + clean + "{ return (" + gate + ") ? " + perturb(kind, call) + f" : {call}; }}\n" + SRC[e:]
    return None
def one(k):
    sig, kind, chk, gate = k
    txt = wrap(sig, kind, gate)
    name = re.search(r"(\w+)\(", sig).group(1)
    if txt is None: return dict(fn=name, gate=gate, result="not found")
    W = tempfile.mkdtemp(prefix="gate-", dir="/tmp/mut")
    try:
        shutil.copytree("/repo/include", W + "/include"); shutil.copytree("/repo/ext", W + "/ext")
        open(W + "/include/colorsystem.hpp", "w").write(txt)
        open(W + "/t.cpp", "w").write('#include <cstdint>\n#include <cstring>\n#include <colorsystem.hpp>\nint main(){}\n')
        c = subprocess.run(["g++", "-std=c++14", "-w", "-fsyntax-only", f"-I{W}/include", W + "/t.cpp"], stderr=subprocess.PIPE, text=True)
        if c.returncode: return dict(fn=name, gate=gate, result="invalid", why=c.stderr[:300])
        p = subprocess.run(["timeout", "400", "python3", f"{ROOT}/run.py", chk], env=dict(os.environ, VERIF_REPO=W, VERIF_TIER="quick"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        return dict(fn=name, gate=gate, check=chk, result="killed" if p.returncode == 1 and "VIOLATION" in p.stdout else f"survived rc{p.returncode}")
    finally:
        shutil.rmtree(W, ignore_errors=True)
ks = [(s, k, c, g) for s, k, c, gs in F for g in gs]
if len(sys.argv) > 4: ks = [k for k in ks if re.search(sys.argv[4], k[0])]
print(len(ks), "gated mutants", flush=True)
cnt = {}
with cf.ThreadPoolExecutor(J) as ex, open(out, "w") as f:
    for d in ex.map(one, ks):
        cnt[d["result"]] = cnt.get(d["result"], 0) + 1
        f.write(json.dumps(d) + "\n"); f.flush()
        if d["result"] != "killed": print(d, flush=True)
print(cnt)
